// C15: typed allocators: counts become bytes exactly, conversions stay bound to the same source, the maximum is in whole objects.
#include "leaf.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <functional>
#include <limits>
#include <memory>

using namespace vf;
using leafs::Event;
using leafs::Op;

namespace
{
    template<size_t N, size_t A = 1> struct alignas(A) Obj { unsigned char b[N]; };

    // A typed allocator of some object type over some source, erased
    struct TA
    {
        size_t unit = 0;
        const char* kind = "";
        int group = 0;              // which source it is bound to
        virtual ~TA() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) = 0;
        virtual bool max(size_t* m) = 0;
        virtual std::unique_ptr<TA> convert(int to, bool move) = 0;
        virtual const leafs::State* state() = 0;
        virtual std::unique_ptr<TA> copy(int how) = 0;
        virtual bool assign(TA& o, bool move) = 0; // of the same type
        virtual bool same_type(TA& o) = 0;
    };

    template<typename A, typename = void> struct offers_owns : std::false_type {};
    template<typename A> struct offers_owns<A, std::void_t<decltype(bool(std::declval<const A&>().owns(std::declval<typename A::value_type*>())))>> : std::true_type {};
    template<typename A, typename = void> struct offers_max : std::false_type {};
    template<typename A> struct offers_max<A, std::void_t<decltype(size_t(std::declval<const A&>().max_size()))>> : std::true_type {};

    template<typename S> const leafs::State* state_of(S& s) { return s.get_allocator().state(); }

    template<typename T, typename S> struct Bound;
    template<typename S> std::unique_ptr<TA> convert_to(int to, bool move, TA& from);

    template<typename T, typename S>
    struct Bound : TA
    {
        using A = ktl::type_allocator<T, S>;
        A a;
        template<typename... X>
        explicit Bound(X&&... x) : a(std::forward<X>(x)...) { unit = sizeof(T); }
        void* allocate(size_t n) override
        {
            T* p = a.allocate(n);
            static_assert(std::is_same_v<typename A::value_type, T>, "");
            return p;
        }
        void deallocate(void* p, size_t n) override { a.deallocate(static_cast<T*>(p), n); }
        int owns(void* p) override
        {
            if constexpr (offers_owns<A>::value) return static_cast<const A&>(a).owns(static_cast<T*>(p)) ? 1 : 0;
            else return -1;
        }
        bool max(size_t* m) override
        {
            if constexpr (offers_max<A>::value) { *m = static_cast<const A&>(a).max_size(); return true; }
            else return false;
        }
        template<typename U>
        std::unique_ptr<TA> as(bool move, int how)
        {
            using R = typename std::allocator_traits<A>::template rebind_alloc<U>;
            static_assert(std::is_same_v<R, ktl::type_allocator<U, S>>, "");
            std::unique_ptr<Bound<U, S>> r;
            if (move) { A b(a); r.reset(new Bound<U, S>(R(std::move(b)))); }
            else if (how == 0) r.reset(new Bound<U, S>(R(static_cast<const A&>(a))));
            else { R other = static_cast<const A&>(a); r.reset(new Bound<U, S>(other)); }
            r->kind = kind;
            r->group = group;
            return r;
        }
        std::unique_ptr<TA> convert(int to, bool move) override
        {
            switch (to % 8)
            {
            case 0: return as<Obj<1>>(move, to / 8);
            case 1: return as<uint16_t>(move, to / 8);
            case 2: return as<Obj<3>>(move, to / 8);
            case 3: return as<double>(move, to / 8);
            case 4: return as<Obj<24, 8>>(move, to / 8);
            case 5: return as<Obj<48, 16>>(move, to / 8);
            case 6: return as<Obj<100>>(move, to / 8);
            default: return as<Obj<4096>>(move, to / 8);
            }
        }
        std::unique_ptr<TA> copy(int how) override
        {
            std::unique_ptr<Bound> r;
            if (how == 0) r.reset(new Bound(static_cast<const A&>(a)));
            else
            {
                A b(a);
                r.reset(new Bound(std::move(b)));
                // Moving leaves the source bound: x equals what was made from it
                VF_CHECK(b == r->a, "moved-away", "%s: a typed allocator that was moved from is bound to something else", kind);
            }
            r->kind = kind;
            r->group = group;
            return r;
        }
        bool assign(TA& o, bool move) override
        {
            auto* b = dynamic_cast<Bound*>(&o);
            if (!b) return false;
            if (move) a = std::move(b->a);
            else a = static_cast<const A&>(b->a);
            group = b->group;
            return true;
        }
        bool same_type(TA& o) override { return dynamic_cast<Bound*>(&o) != nullptr; }
        const leafs::State* state() override { return state_of(a.get_allocator()); }
    };

    constexpr unsigned ALL = leafs::OWNS | leafs::MAXSZ;
    using L0 = leafs::leaf<0, ALL>;

    struct Blk { unsigned char* p; size_t bytes; int group; };

    // What a typed allocator asks for must arrive exactly. The sources: two of them.
    template<typename S>
    void drive(const char* kind, std::vector<std::unique_ptr<TA>> handles, std::vector<const leafs::State*> states, Rng& rng)
    {
        auto& w = leafs::world();
        uint64_t trace = hash_str(kind);
        std::vector<Blk> blocks;
        w.logging = true;
        const size_t steps = rng.range(10, 120);
        for (size_t s = 0; s < steps; s++)
        {
            const size_t hi = rng.below(handles.size());
            TA& h = *handles[hi];
            const unsigned op = unsigned(rng.below(12));
            trace = mix(trace ^ op ^ (h.unit << 8));
            w.log.clear();
            vf::detail("%s, objects of %zu bytes", kind, h.unit);
            VF_CHECK(h.state() == states[h.group], "wrong-source", "%s: a handle for objects of %zu bytes lost its source", kind, h.unit);
            if (op < 4)
            {
                const size_t most = SIZE_MAX / h.unit;
                size_t n = 0;
                switch (rng.below(10))
                {
                case 0: n = most; break;
                case 1: n = most < SIZE_MAX ? most + rng.range(1, std::min<size_t>(SIZE_MAX - most, 40)) : most; break;
                case 2: n = SIZE_MAX - rng.below(20); break;
                case 3: n = size_t(1) << rng.range(48, 63); n += rng.below(3); break;
                case 4: n = 0; break;
                case 5: n = size_t(-(int64_t)rng.range(1, 64)) / h.unit; n += rng.below(3); break;
                default: n = rng.range(1, std::max<size_t>(2, 400 / h.unit)); break;
                }
                const bool representable = n <= most;
                void* p = h.allocate(n);
                trace = mix(trace ^ n);
                size_t asked = 0;
                for (auto& e : w.log) asked += e.op == Op::Alloc;
                if (!representable)
                {
                    VF_CHECK(!p, "served-unrepresentable", "%s: %zu objects of %zu bytes were served (%zu bytes asked for)", kind, n, h.unit, w.log.empty() ? 0 : w.log[0].n);
                    for (auto& e : w.log) VF_CHECK(e.p == nullptr, "memory-kept", "%s: an unrepresentable request took memory", kind);
                    stat("unrepresentable_requests");
                    continue;
                }
                VF_CHECK(asked == 1 && w.log.size() == 1, "wrong-request", "%s: %zu objects of %zu bytes made %zu requests", kind, n, h.unit, w.log.size());
                VF_CHECK(w.log[0].n == n * h.unit, "wrong-request", "%s: %zu objects of %zu bytes asked the source for %zu bytes", kind, n, h.unit, w.log[0].n);
                VF_CHECK(w.log[0].inst == states[h.group]->inst, "wrong-source", "%s: %zu objects of %zu bytes were asked of another source", kind, n, h.unit);
                VF_CHECK(w.log[0].p == p, "wrong-address", "%s: the source gave %p, the client got %p", kind, w.log[0].p, p);
                stat("requests");
                if (p)
                {
                    memset(p, int(s), n * h.unit);
                    blocks.push_back({ static_cast<unsigned char*>(p), n * h.unit, h.group });
                }
            }
            else if (op < 8)
            {
                if (blocks.empty()) continue;
                // Through any handle of the same source whose objects fill the block exactly
                const size_t k = rng.below(blocks.size());
                Blk b = blocks[k];
                TA* via = nullptr;
                for (size_t t = 0, at = rng.below(handles.size()); t < handles.size(); t++)
                {
                    TA& c = *handles[(at + t) % handles.size()];
                    if (c.group == b.group && b.bytes % c.unit == 0) { via = &c; break; }
                }
                if (!via) continue;
                blocks[k] = blocks.back();
                blocks.pop_back();
                via->deallocate(b.p, b.bytes / via->unit);
                VF_CHECK(w.log.size() == 1 && w.log[0].op == Op::Free, "wrong-return", "%s: returning a block made %zu calls", kind, w.log.size());
                VF_CHECK(w.log[0].p == b.p && w.log[0].n == b.bytes, "wrong-return", "%s: a block of %zu bytes was returned as %zu bytes (objects of %zu)", kind, b.bytes, w.log[0].n, via->unit);
                VF_CHECK(w.log[0].inst == states[b.group]->inst, "wrong-source", "%s: a block was returned to another source", kind);
                VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s: %s", kind, w.error.c_str());
                if (via->unit > 0) stat("returns");
            }
            else if (op == 8)
            {
                if (handles.size() >= 14) { if (hi > 1) handles.erase(handles.begin() + long(hi)); continue; }
                const int to = int(rng.below(16));
                auto c = h.convert(to, rng.chance(1, 2));
                VF_CHECK(c->state() == states[h.group], "conversion-unbound", "%s: converted from objects of %zu to %zu bytes, an allocator is bound to another source", kind, h.unit, c->unit);
                VF_CHECK(h.state() == states[h.group], "conversion-unbound", "%s: converting an allocator unbound it", kind);
                handles.push_back(std::move(c));
                stat("conversions");
            }
            else if (op == 9)
            {
                if (handles.size() >= 14) continue;
                handles.push_back(h.copy(int(rng.below(2))));
                VF_CHECK(handles.back()->state() == states[handles.back()->group], "conversion-unbound", "%s: a copy is bound to another source", kind);
            }
            else if (op == 10)
            {
                TA& o = *handles[rng.below(handles.size())];
                if (hi > 1 && h.same_type(o))
                {
                    const int g = o.group;
                    h.assign(o, rng.chance(1, 2));
                    VF_CHECK(h.state() == states[g] && o.state() == states[g], "assignment-unbound", "%s: after an assignment an allocator is bound to another source", kind);
                    stat("assignments");
                }
            }
            else
            {
                // Maximum, in whole objects, for whatever the source says
                size_t m = 0;
                static const size_t reports[] = { 0, 1, 2, 7, 8, 23, 24, 99, 100, 101, 4095, 4096, 4097, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2 + 3, size_t(1) << 32 };
                w.cfg[0].maxReport = rng.chance(1, 3) ? rng.next() : reports[rng.below(17)];
                if (h.max(&m))
                {
                    VF_CHECK(m == w.cfg[0].maxReport / h.unit, "wrong-maximum", "%s: a source of at most %zu bytes is said to hold %zu objects of %zu bytes", kind, w.cfg[0].maxReport, m, h.unit);
                    stat("maxima");
                }
                if (!blocks.empty())
                {
                    Blk& b = rng.pick(blocks);
                    if (b.bytes)
                    {
                        const int o = h.owns(b.p + rng.below(b.bytes));
                        VF_CHECK(o < 0 || o == (b.group == h.group), "wrong-owner", "%s: an allocator for objects of %zu bytes says %d about a block of source %d", kind, h.unit, o, b.group);
                        if (o >= 0) stat("ownership_questions");
                    }
                }
            }
        }
        for (auto& b : blocks)
            for (auto& h : handles)
                if (h->group == b.group && b.bytes % h->unit == 0) { h->deallocate(b.p, b.bytes / h->unit); break; }
        VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s: %s", kind, w.error.c_str());
        sig(trace);
        digest(trace);
        stat((std::string("cases:") + kind).c_str());
        sample(fmt("%s: %zu steps, %zu handles", kind, steps, handles.size()));
    }

    template<typename S, typename Make>
    void family(const char* kind, Rng& rng, Make make)
    {
        // Two sources, and a handle of one byte each, which can return everything
        auto one = make(0), two = make(1);
        std::vector<std::unique_ptr<TA>> hs;
        hs.emplace_back(new Bound<Obj<1>, S>(ktl::type_allocator<Obj<1>, S>(*one)));
        hs.emplace_back(new Bound<Obj<1>, S>(ktl::type_allocator<Obj<1>, S>(*two)));
        hs.emplace_back(new Bound<int, S>(ktl::type_allocator<int, S>(*one)));
        hs.emplace_back(new Bound<Obj<12, 4>, S>(ktl::type_allocator<Obj<12, 4>, S>(*two)));
        hs.emplace_back(new Bound<double, S>(ktl::type_allocator<double, S>(*two)));
        for (size_t i = 0; i < hs.size(); i++) { hs[i]->kind = kind; hs[i]->group = i == 1 || i > 2; }
        std::vector<const leafs::State*> states{ state_of(*one), state_of(*two) };
        drive<S>(kind, std::move(hs), states, rng);
    }

    // A source whose state is asked through two layers
    struct deep : ktl::shared<ktl::threaded<L0>>
    {
        using B = ktl::shared<ktl::threaded<L0>>;
        using B::B;
        deep() {}
        bool operator==(const deep& o) const { return static_cast<const B&>(*this) == o; }
        bool operator!=(const deep& o) const { return static_cast<const B&>(*this) != o; }
        L0& get_allocator() { return B::get_allocator().get_allocator(); }
    };

    // Kept apart from the cases: what typed aliases and size types look like from outside
    template<typename T, typename A>
    void in_whole_objects(const char* name, A& a, size_t capacity)
    {
        const size_t m = a.max_size();
        VF_CHECK(m == capacity / sizeof(T), "wrong-maximum", "%s: an arena of %zu bytes is said to hold %zu objects of %zu bytes", name, capacity, m, sizeof(T));
        stat("arena_maxima");
        if (!m) return;
        T* p = a.allocate(m);
        VF_CHECK(p, "maximum-refused", "%s: %zu objects of %zu bytes do not fit", name, m, sizeof(T));
        VF_CHECK(!a.allocate(m + 1), "served-unrepresentable", "%s: more than everything was served", name);
        a.deallocate(p, m);
    }

    void run_case(uint64_t idx, Rng& rng)
    {
        auto& w = leafs::world();
        w.reset();
        using namespace ktl;
        switch (idx % 6)
        {
        case 0: return family<shared<L0>>("type<shared<leaf>>", rng, [](int) { return std::make_unique<shared<L0>>(); });
        case 1: return family<atomic_shared<L0>>("type<atomic_shared<leaf>>", rng, [](int) { return std::make_unique<atomic_shared<L0>>(); });
        case 2:
        {
            L0 x, y;
            return family<reference<L0>>("type<reference<leaf>>", rng, [&](int i) { return std::make_unique<reference<L0>>(i ? y : x); });
        }
        case 3: return family<deep>("type<shared<threaded<leaf>>>", rng, [](int) { return std::make_unique<deep>(); });
        case 4: // limited sources refuse, and the typed allocator passes that on
            w.cfg[0].maxSingle = rng.range(1, 300);
            w.cfg[0].failNum = rng.chance(1, 2) ? 16000 : 0;
            return family<shared<L0>>("type<shared<limited leaf>>", rng, [](int) { return std::make_unique<shared<L0>>(); });
        case 5:
        {
            vf::detail("arenas");
            {
                type_linear_allocator<double, 1024> a;
                in_whole_objects<double>("type_linear_allocator<8,1024>", a, 1024);
                type_linear_allocator<Obj<100>, 1024> b;
                in_whole_objects<Obj<100>>("type_linear_allocator<100,1024>", b, 1024);
                type_linear_allocator<Obj<100>, 64> c;
                in_whole_objects<Obj<100>>("type_linear_allocator<100,64>", c, 64);
            }
            {
                stack<512> s;
                type_stack_allocator<Obj<48, 16>, 512> a(s);
                in_whole_objects<Obj<48, 16>>("type_stack_allocator<48,512>", a, 512);
                type_stack_allocator<uint16_t, 512> b(a);
                in_whole_objects<uint16_t>("type_stack_allocator<2,512>", b, 512);
            }
            {
                type_shared_linear_allocator<Obj<3>, 256> a;
                in_whole_objects<Obj<3>>("type_shared_linear_allocator<3,256>", a, 256);
                type_allocator<Obj<24, 8>, shared<linear_allocator<256>>> b(a);
                in_whole_objects<Obj<24, 8>>("type<24,shared<linear<256>>>", b, 256);
                linear_allocator<256> l;
                type_reference_linear_allocator<int, 256> r(l);
                in_whole_objects<int>("type_reference_linear_allocator<4,256>", r, 256);
            }
            sig(idx);
            return;
        }
        }
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c15", run_case); }
