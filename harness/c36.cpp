// C36: constructor arguments. What a composition is constructed with reaches the allocators it is made of: once, the very objects, as lvalues or
// rvalues as they were passed. And it starts out like one which was constructed without arguments: a twin over other sources says so.
#include "leaf.h"
#include "shadow.h"
#include "subjects.h"
#include "twin.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <tuple>

using namespace vf;
using namespace ktl;

namespace
{
    enum Form { NONE, LVALUE, CONST_LVALUE, RVALUE, OWNER, THREE, TEXT, FORMS };
    const char* const FORM[] = { "()", "(int&)", "(const int&)", "(int&&)", "(unique_ptr&&)", "(int, const string&, Token&)", "(const char*)" };

    struct Token { int value = 0; };
    struct Alien {};

    struct Made { Form form; const void* what; long value; };
    std::vector<Made> g_made[leafs::TAGS];
    int g_served = -1; // the form of the source which served last

    // A source which can be constructed in many ways
    template<int Tag, unsigned Flags = leafs::OWNS | leafs::MAXSZ>
    class taker : public leafs::leaf<Tag, Flags>
    {
        using base = leafs::leaf<Tag, Flags>;
        Form m_Form;
        void made(Form f, const void* what, long v) noexcept { m_Form = f; g_made[Tag].push_back({ f, what, v }); }
    public:
        taker() noexcept { made(NONE, nullptr, 0); }
        explicit taker(int& i) noexcept { made(LVALUE, &i, i); i++; }
        explicit taker(const int& i) noexcept { made(CONST_LVALUE, &i, i); }
        explicit taker(int&& i) noexcept { made(RVALUE, &i, i); i = -3; }
        explicit taker(std::unique_ptr<int>&& u) noexcept { std::unique_ptr<int> mine(std::move(u)); made(OWNER, mine.get(), mine ? *mine : -1); }
        taker(int a, const std::string& s, Token& t) noexcept { made(THREE, &t, a + long(s.size()) * 1000 + t.value); t.value++; }
        explicit taker(const char* s) noexcept { made(TEXT, s, long(strlen(s))); }
        taker(taker&&) noexcept = default;
        taker(const taker&) noexcept = default;
        taker& operator=(taker&&) noexcept = default;
        void* allocate(size_t n) noexcept
        {
            g_served = m_Form;
            return base::allocate(n);
        }
        bool operator==(const taker& o) const noexcept { return base::operator==(o); }
        bool operator!=(const taker& o) const noexcept { return base::operator!=(o); }
    };

    // The objects which are passed
    struct Pass
    {
        int i;
        const int c;
        int r;
        std::unique_ptr<int> u;
        int a;
        std::string s;
        Token t;
        char text[16];
        int *u0;
        explicit Pass(Rng& g) : i(int(g.below(1000))), c(int(g.below(1000))), r(int(g.below(1000))), u(new int(int(g.below(1000)))), a(int(g.below(900))), s(g.below(20), 'x'), u0(u.get())
        {
            t.value = int(g.below(90));
            snprintf(text, sizeof text, "%zu", g.below(100000));
            expectI = i; expectR = r; expectU = *u; expectT = t.value;
        }
        int expectI, expectR, expectU, expectT;

        template<typename F>
        auto with(Form f, F&& go)
        {
            switch (f)
            {
            case LVALUE: return go(i);
            case CONST_LVALUE: return go(c);
            case RVALUE: return go(std::move(r));
            case OWNER: return go(std::move(u));
            case THREE: return go(a, static_cast<const std::string&>(s), t);
            case TEXT: return go(static_cast<const char*>(text));
            default: return go();
            }
        }

        // Did a source of that tag get exactly these?
        void check(const char* name, Form f, int tag)
        {
            const auto& m = g_made[tag];
            VF_CHECK(m.size() == 1, "constructed-times", "%s: source %d was constructed %zu times for one construction with %s", name, tag, m.size(), FORM[f]);
            VF_CHECK(m[0].form == f, "another-form", "%s: constructed with %s, source %d was constructed with %s", name, FORM[f], tag, FORM[m[0].form]);
            bool same = true, value = true;
            switch (f)
            {
            case LVALUE: same = m[0].what == &i; value = m[0].value == expectI && i == expectI + 1; break;
            case CONST_LVALUE: same = m[0].what == &c; value = m[0].value == c; break;
            case RVALUE: same = m[0].what == &r; value = m[0].value == expectR && r == -3; break;
            case OWNER: same = m[0].what == u0; value = m[0].value == expectU && !u; break;
            case THREE: same = m[0].what == &t; value = m[0].value == a + long(s.size()) * 1000 + expectT && t.value == expectT + 1; break;
            case TEXT: same = m[0].what == text; value = m[0].value == long(strlen(text)); break;
            default: break;
            }
            VF_CHECK(same, "another-object", "%s: constructed with %s, source %d was given another object", name, FORM[f], tag);
            VF_CHECK(value, "another-value", "%s: constructed with %s, source %d saw the value %ld", name, FORM[f], tag, m[0].value);
            stat("arguments_followed");
        }
    };

    struct Env
    {
        Sink sink;
        stack<512> block;
    };

    struct Any
    {
        virtual ~Any() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) = 0;
    };

    template<typename A, typename = void> struct unit_of { static constexpr size_t value = 1; };
    template<typename A> struct unit_of<A, std::void_t<typename A::value_type>> { static constexpr size_t value = sizeof(typename A::value_type); };

    // What is constructed lies in memory which is full of something else
    template<typename A>
    struct Holder : Any
    {
        alignas(A) unsigned char mem[sizeof(A)];
        A* a = nullptr;
        explicit Holder(uint64_t junk) { for (size_t i = 0; i < sizeof mem; i++) mem[i] = (unsigned char)(mix(junk + i)); }
        template<typename... X> void make(X&&... x) { a = ::new (static_cast<void*>(mem)) A(std::forward<X>(x)...); }
        ~Holder() override { if (a) a->~A(); }
        void* allocate(size_t n) override { return a->allocate(n / unit_of<A>::value); }
        void deallocate(void* p, size_t n) override
        {
            if constexpr (unit_of<A>::value > 1) a->deallocate(static_cast<typename A::value_type*>(p), n / unit_of<A>::value);
            else a->deallocate(p, n);
        }
        int owns(void* p) override
        {
            if constexpr (unit_of<A>::value > 1) return -1;
            else if constexpr (offers_owns<A>::value) return static_cast<const A&>(*a).owns(p) ? 1 : 0;
            else return -1;
        }
    };

    using Holders = std::pair<std::unique_ptr<Any>, std::unique_ptr<Any>>;
    struct Kind
    {
        std::string name;
        size_t unit;
        // constructs one with the arguments, checks where they went, and its twin without
        std::function<Holders(const char* name, Rng&, Env&, Env&)> make;
    };
    std::vector<Kind>& kinds() { static auto* k = new std::vector<Kind>; return *k; }

    // ------------------------------------------------------------------------------- one source, any arguments
    template<template<int> class W, bool Sunk>
    void add_one(const char* name)
    {
        using A = W<0>;
        using B = W<TWIN>;
        kinds().push_back({ name, unit_of<A>::value, [](const char* name, Rng& rng, Env& e, Env& f) {
            // Exactly what the source can be constructed with is offered
            if constexpr (Sunk)
            {
                VF_CHECK((std::is_constructible_v<A, Sink&, int&> && std::is_constructible_v<A, Sink&, std::unique_ptr<int>&&> && std::is_constructible_v<A, Sink&, int, const std::string&, Token&>), "not-offered", "%s: it cannot be constructed with the arguments of its source", name);
                VF_CHECK((!std::is_constructible_v<A, Sink&, Alien> && !std::is_constructible_v<A, Sink&, std::unique_ptr<int>&> && !std::is_constructible_v<A, Sink&, int, int>), "offered", "%s: it pretends to be constructible with what its source cannot be", name);
            }
            else
            {
                VF_CHECK((std::is_constructible_v<A, int&> && std::is_constructible_v<A, std::unique_ptr<int>&&> && std::is_constructible_v<A, int, const std::string&, Token&> && std::is_default_constructible_v<A>), "not-offered", "%s: it cannot be constructed with the arguments of its source", name);
                VF_CHECK((!std::is_constructible_v<A, Alien> && !std::is_constructible_v<A, std::unique_ptr<int>&> && !std::is_constructible_v<A, int, int>), "offered", "%s: it pretends to be constructible with what its source cannot be", name);
            }
            Pass p(rng);
            const Form form = Form(rng.below(FORMS));
            vf::detail("%s, constructed with %s", name, FORM[form]);
            auto a = std::make_unique<Holder<A>>(rng.next());
            auto b = std::make_unique<Holder<B>>(rng.next());
            p.with(form, [&](auto&&... x) {
                if constexpr (Sunk) a->make(e.sink, std::forward<decltype(x)>(x)...);
                else a->make(std::forward<decltype(x)>(x)...);
            });
            p.check(name, form, 0);
            if constexpr (Sunk) b->make(f.sink);
            else b->make();
            return Holders(std::move(a), std::move(b));
        } });
    }

    // ------------------------------------------------------------------------------- two sources
    // The parts may be compositions themselves, whose sources have the tags 0 and 1
    template<template<int> class W>
    void add_two(const char* name, bool tuples = true)
    {
        using A = W<0>;
        using B = W<TWIN>;
        kinds().push_back({ name, unit_of<A>::value, [](const char* name, Rng& rng, Env&, Env&) {
            VF_CHECK((std::is_constructible_v<A, int&, const char*> && std::is_constructible_v<A, std::unique_ptr<int>&&> && std::is_constructible_v<A, std::tuple<int, const std::string&, Token&>>), "not-offered", "%s: it cannot be constructed with the arguments of its sources", name);
            VF_CHECK((!std::is_constructible_v<A, Alien> && !std::is_constructible_v<A, int&, Alien> && !std::is_constructible_v<A, Alien, int&> && !std::is_constructible_v<A, std::unique_ptr<int>&>), "offered", "%s: it pretends to be constructible with what its sources cannot be", name);
            Pass p(rng), q(rng);
            auto a = std::make_unique<Holder<A>>(rng.next());
            auto b = std::make_unique<Holder<B>>(rng.next());
            Form f1 = Form(rng.below(FORMS)), f2 = Form(rng.below(FORMS));
            const bool asTuples = f1 == NONE || f1 == THREE || f2 == THREE || rng.chance(1, 2);
            const bool second = asTuples ? rng.chance(2, 3) : f2 != NONE;
            if (!second) f2 = NONE;
            vf::detail("%s, constructed with %s and %s%s", name, FORM[f1], FORM[f2], asTuples ? " in tuples" : "");
            if (f1 == NONE && f2 == NONE && !second && rng.chance(1, 2)) a->make();
            else if (asTuples)
                p.with(f1, [&](auto&&... x) {
                    std::tuple<decltype(x)...> one(std::forward<decltype(x)>(x)...);
                    if (!second) a->make(std::move(one));
                    else q.with(f2, [&](auto&&... y) { a->make(std::move(one), std::tuple<decltype(y)...>(std::forward<decltype(y)>(y)...)); });
                });
            else
                p.with(f1, [&](auto&&... x) {
                    if constexpr (sizeof...(x) == 1)
                    {
                        std::tuple<decltype(x)...> one(std::forward<decltype(x)>(x)...);
                        if (!second) a->make(std::get<0>(std::move(one)));
                        else
                            q.with(f2, [&](auto&&... y) {
                                if constexpr (sizeof...(y) == 1) a->make(std::get<0>(std::move(one)), std::forward<decltype(y)>(y)...);
                            });
                    }
                });
            p.check(name, f1, 0);
            q.check(name, f2, 1);
            if (asTuples) stat("tuples");
            b->make();
            return Holders(std::move(a), std::move(b));
        } });
    }

    // ------------------------------------------------------------------------------- arenas elsewhere, passed through
    template<template<int> class W, bool Sunk, bool ByTuple>
    void add_stack(const char* name)
    {
        using A = W<0>;
        using B = W<TWIN>;
        kinds().push_back({ name, unit_of<A>::value, [](const char*, Rng& rng, Env& e, Env& f) {
            auto a = std::make_unique<Holder<A>>(rng.next());
            auto b = std::make_unique<Holder<B>>(rng.next());
            if constexpr (Sunk) { a->make(e.sink, e.block); b->make(f.sink, &f.block); }
            else if constexpr (ByTuple) { a->make(std::forward_as_tuple(e.block)); b->make(f.block); }
            else { a->make(e.block); b->make(&f.block); }
            void* p = a->allocate(24);
            VF_CHECK(p && p >= static_cast<void*>(&e.block) && p < static_cast<void*>(&e.block + 1), "another-object", "an arena which was passed is not the one which is used");
            a->deallocate(p, 24);
            p = b->allocate(24);
            b->deallocate(p, 24);
            stat("arenas_passed");
            return Holders(std::move(a), std::move(b));
        } });
    }

    template<int B> using W1 = freelist<0, 64, taker<B>>;
    template<int B> using W2 = shared<taker<B>>;
    template<int B> using W3 = atomic_shared<taker<B>>;
    template<int B> using W4 = threaded<taker<B>>;
    template<int B> using W5 = type_allocator<int, taker<B>>;
    template<int B> using W6 = overflow<taker<B>, Sink>;
    template<int B> using W7 = type_allocator<int, shared<threaded<freelist<0, 96, taker<B>>>>>;
    template<int B> using W8 = shared<overflow<taker<B>, Sink>>;
    template<int B> using W9 = threaded<overflow<freelist<0, 256, taker<B>>, Sink>>;
    template<int B> using W10 = freelist<0, 128, freelist<0, 64, taker<B>>>;
    template<int B> using W11 = overflow<threaded<shared<taker<B>>>, Sink>;
    template<int B> using W12 = type_allocator<long, atomic_shared<threaded<taker<B>>>>;
    template<int B> using W13 = freelist<0, 64, overflow<taker<B>, Sink>>;
    template<int B> using W14 = shared<shared<taker<B>>>;

    template<int B> using P1 = fallback<taker<B>, taker<B + 1>>;
    template<int B> using P2 = segragator<64, taker<B>, taker<B + 1>>;
    template<int B> using P3 = shared<fallback<taker<B>, taker<B + 1>>>;
    template<int B> using P4 = type_allocator<int, segragator<100, taker<B>, taker<B + 1>>>;
    template<int B> using P5 = fallback<shared<taker<B>>, freelist<0, 128, taker<B + 1>>>;
    template<int B> using P6 = segragator<48, freelist<0, 48, taker<B>>, shared<taker<B + 1>>>;
    template<int B> using P7 = threaded<segragator<64, shared<taker<B>>, taker<B + 1>>>;
    template<int B> using P8 = freelist<0, 128, fallback<taker<B>, taker<B + 1>>>;
    template<int B> using P9 = type_allocator<int, atomic_shared<threaded<fallback<taker<B>, taker<B + 1>>>>>;

    template<int> using S1 = overflow<stack_allocator<512>, Sink>;
    template<int> using S2 = threaded<stack_allocator<512>>;
    template<int> using S3 = shared<stack_allocator<512>>;
    template<int B> using S4 = fallback<stack_allocator<512>, taker<B>>;
    template<int B> using S5 = segragator<64, stack_allocator<512>, taker<B>>;
    template<int> using S6 = freelist<0, 64, stack_allocator<512>>;
    template<int B> using S7 = type_allocator<long, shared<fallback<stack_allocator<512>, taker<B>>>>;
    template<int B> using S8 = fallback<stack_allocator<512>, taker<B>>;

    void build()
    {
        add_one<W1, false>("freelist");
        add_one<W2, false>("shared");
        add_one<W3, false>("atomic_shared");
        add_one<W4, false>("threaded");
        add_one<W5, false>("type_allocator");
        add_one<W6, true>("overflow");
        add_one<W7, false>("type_allocator<shared<threaded<freelist>>>");
        add_one<W8, true>("shared<overflow>");
        add_one<W9, true>("threaded<overflow<freelist>>");
        add_one<W10, false>("freelist<freelist>");
        add_one<W11, true>("overflow<threaded<shared>>");
        add_one<W12, false>("type_allocator<atomic_shared<threaded>>");
        add_one<W13, true>("freelist<overflow>");
        add_one<W14, false>("shared<shared>");
        add_two<P1>("fallback");
        add_two<P2>("segragator");
        add_two<P3>("shared<fallback>");
        add_two<P4>("type_allocator<segragator>");
        add_two<P5>("fallback<shared,freelist>");
        add_two<P6>("segragator<freelist,shared>");
        add_two<P7>("threaded<segragator<shared,source>>");
        add_two<P8>("freelist<fallback>");
        add_two<P9>("type_allocator<atomic_shared<threaded<fallback>>>");
        add_stack<S1, true, false>("overflow<stack>");
        add_stack<S2, false, false>("threaded<stack>");
        add_stack<S3, false, false>("shared<stack>");
        add_stack<S4, false, false>("fallback<stack>");
        add_stack<S5, false, false>("segragator<stack>");
        add_stack<S6, false, false>("freelist<stack>");
        add_stack<S7, false, false>("type_allocator<shared<fallback<stack>>>");
        add_stack<S8, false, true>("fallback<stack> by tuple");
    }

    struct Driver : Twins
    {
        const Kind& k;
        Rng& rng;
        Shadow sm, ss;
        uint64_t trace = 0;
        Env e, f;
        std::unique_ptr<Any> m, s;

        Driver(const Kind& kind, Rng& r, uint64_t salt) : Twins(kind.name), k(kind), rng(r), sm(salt), ss(salt) {}

        void allocate()
        {
            const size_t n = (rng.chance(1, 2) ? rng.range(0, 140) : rng.range(0, 400)) / k.unit * k.unit;
            Seen x;
            g_served = -1;
            void* p = m->allocate(n);
            const int by = g_served;
            x.m = slice();
            void* q = s->allocate(n);
            x.s = slice();
            VF_CHECK(!p == !q, "outcome", "%s: %zu bytes are %s, one which was constructed without arguments %s them", k.name.c_str(), n, p ? "served" : "refused", q ? "serves" : "refuses");
            compare("a request", x);
            trace = mix(trace ^ n ^ (p ? 1u << 20 : 0) ^ (x.m.size() << 24) ^ (uint64_t(by + 1) << 32));
            if (!p) { stat("refusals"); return; }
            VF_CHECK(sm.add(p, n), "overlap", "%s: a block of %zu bytes overlaps another one", k.name.c_str(), n);
            ss.add(q, n);
            stat("requests");
        }

        void give_back(size_t i)
        {
            const Block b = sm.take(i), c = ss.take(i);
            Seen x;
            m->deallocate(b.p, b.n);
            x.m = slice();
            s->deallocate(c.p, c.n);
            x.s = slice();
            compare("a return", x);
        }

        void run()
        {
            w.reset();
            w.logging = true;
            for (auto& g : g_made) g.clear();
            for (int t = 0; t < TWIN; t++)
            {
                auto& c = w.cfg[t];
                if (rng.chance(2, 3)) c.cap = rng.range(64, rng.chance(1, 2) ? 600 : 3000);
                if (rng.chance(1, 3)) c.maxSingle = rng.range(0, 400);
                w.cfg[t + TWIN] = c;
            }
            {
                auto both = k.make(k.name.c_str(), rng, e, f);
                m = std::move(both.first);
                s = std::move(both.second);
            }
            ledgers("its construction");
            slice();
            const size_t steps = rng.range(5, 80);
            for (size_t n = 0; n < steps; n++)
            {
                if (rng.chance(3, 5)) allocate();
                else if (!sm.live.empty()) give_back(rng.chance(1, 2) ? sm.live.size() - 1 : rng.below(sm.live.size()));
                else VF_CHECK(m->owns(&e) == s->owns(&f), "owns", "%s: the answers for foreign memory differ", k.name.c_str());
                ledgers("an operation");
                size_t where = 0;
                VF_CHECK(!sm.damaged(&where), "contents", "%s: a block changed", k.name.c_str());
            }
            while (!sm.live.empty()) give_back(rng.below(sm.live.size()));
            m.reset();
            Seen x;
            x.m = slice();
            s.reset();
            x.s = slice();
            compare("destroying it", x);
            ledgers("destroying it");
            VF_CHECK(e.sink.text.empty(), "reported", "%s: everything was returned, but it reported: %.150s", k.name.c_str(), e.sink.text.c_str());
            VF_CHECK(f.sink.text.empty(), "reported", "%s: everything was returned, but it reported: %.150s", k.name.c_str(), f.sink.text.c_str());
            VF_CHECK(w.liveBlocks == 0 && w.instances == w.sharedStates(), "kept", "%s: %zu blocks and %zu sources remain", k.name.c_str(), size_t(w.liveBlocks), size_t(w.instances - w.sharedStates()));
            stat("histories");
        }
    };
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (kinds().empty()) build();
    const Kind& k = kinds()[idx % kinds().size()];
    Driver d(k, rng, idx + 1);
    d.run();
    sig(d.trace);
    digest(d.trace);
    if (idx < kinds().size()) sample(k.name);
    stat(("cases:" + k.name).c_str());
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c36", run_case); }
