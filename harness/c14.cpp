// C14: equality of allocators: reflexive, symmetric, the negation of inequality, right about state, and a promise to take back memory.
#include "leaf.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <deque>
#include <memory>
#include <sstream>

using namespace vf;

namespace
{
    constexpr long ANY = -1;   // equality with others is not determined by the property (only its consistency is)

    template<typename A, typename = void>
    struct bytes
    {
        static void* get(A& a, size_t n) { return a.allocate(n); }
        static void put(A& a, void* p, size_t n) { a.deallocate(p, n); }
        static constexpr size_t unit = 1;
    };
    template<typename A>
    struct bytes<A, std::void_t<typename A::value_type>>
    {
        using T = typename A::value_type;
        static constexpr size_t unit = sizeof(T);
        static void* get(A& a, size_t n) { return a.allocate(n / sizeof(T)); }
        static void put(A& a, void* p, size_t n) { a.deallocate(static_cast<T*>(p), n / sizeof(T)); }
    };

    template<typename A> struct Item { A* a; long group; const char* what; };
    struct Held { void* p; size_t n; size_t from; unsigned char f; };

    // Compares x and y in every way, and returns whether they are equal
    template<typename A, typename B>
    bool compare(const A& x, const B& y, long gx, long gy, const char* name, const char* wx, const char* wy)
    {
        const bool xy = x == y, yx = y == x, nxy = x != y, nyx = y != x;
        stat("comparisons", 4);
        VF_CHECK(xy == yx, "asymmetric", "%s: %s == %s is %d, but the other way round %d", name, wx, wy, xy, yx);
        VF_CHECK(nxy == nyx, "asymmetric", "%s: %s != %s is %d, but the other way round %d", name, wx, wy, nxy, nyx);
        VF_CHECK(nxy == !xy, "not-negated", "%s: %s and %s: == gives %d and != gives %d", name, wx, wy, xy, nxy);
        if (gx != ANY && gy != ANY)
        {
            VF_CHECK(xy == (gx == gy), gx == gy ? "same-state-unequal" : "separate-state-equal", "%s: %s and %s are %s state, but compare %s", name, wx, wy,
                gx == gy ? "handles to the same" : "of separate", xy ? "equal" : "unequal");
            stat(gx == gy ? "same_state" : "separate_state");
        }
        return xy;
    }

    template<typename A>
    void judge(const char* name, std::vector<Item<A>> items, Rng& rng)
    {
        auto& w = leafs::world();
        uint64_t trace = hash_str(name);
        std::vector<Held> held;
        const size_t steps = rng.range(5, 60);
        const size_t biggest = rng.chance(1, 3) ? 400 : 80;
        for (size_t s = 0; s < steps; s++)
        {
            const size_t i = rng.below(items.size()), j = rng.below(items.size());
            VF_CHECK(compare(*items[i].a, *items[i].a, 1, 1, name, items[i].what, "itself"), "irreflexive", "%s: %s is not equal to itself", name, items[i].what);
            compare(*items[i].a, *items[j].a, i == j ? 1 : items[i].group, i == j ? 1 : items[j].group, name, items[i].what, items[j].what);
            const unsigned op = unsigned(rng.below(4));
            trace = mix(trace ^ (i * 31 + j) ^ (op << 20));
            if (op < 2)
            {
                const size_t n = bytes<A>::unit * rng.range(1, std::max<size_t>(1, biggest / bytes<A>::unit));
                void* p = bytes<A>::get(*items[i].a, n);
                if (p)
                {
                    const unsigned char f = (unsigned char)rng.next();
                    memset(p, f, n);
                    held.push_back({ p, n, i, f });
                }
            }
            else if (!held.empty())
            {
                const size_t k = rng.below(held.size());
                Held h = held[k];
                held[k] = held.back();
                held.pop_back();
                for (size_t b = 0; b < h.n; b++)
                    VF_CHECK(static_cast<unsigned char*>(h.p)[b] == h.f, "contents-changed", "%s: a block changed", name);
                // Return it through any that is equal now
                const size_t t = rng.chance(3, 4) ? j : h.from;
                const bool eq = t == h.from || compare(*items[h.from].a, *items[t].a, items[h.from].group, items[t].group, name, items[h.from].what, items[t].what);
                if (eq && t != h.from) stat("returned_through_equal");
                bytes<A>::put(*items[eq ? t : h.from].a, h.p, h.n);
                VF_CHECK(w.error.empty(), "equal-but-not-interchangeable", "%s: a block of %s was returned through %s, which compares equal: %s", name, items[h.from].what,
                    items[eq ? t : h.from].what, w.error.c_str());
            }
        }
        for (auto& h : held) bytes<A>::put(*items[h.from].a, h.p, h.n);
        VF_CHECK(w.error.empty(), "equal-but-not-interchangeable", "%s: %s", name, w.error.c_str());
        sig(trace);
        digest(trace);
        sample(fmt("%s: %zu handles, %zu steps", name, items.size(), steps));
        stat((std::string("cases:") + name).c_str());
    }

    // Typed allocators of two types
    template<typename A, typename B>
    void judge_types(const char* name, std::vector<Item<A>> as, std::vector<Item<B>> bs, Rng& rng)
    {
        auto& w = leafs::world();
        uint64_t trace = hash_str(name) + 1;
        const size_t steps = rng.range(3, 30);
        constexpr size_t unit = sizeof(typename A::value_type) * sizeof(typename B::value_type);
        for (size_t s = 0; s < steps; s++)
        {
            auto& x = as[rng.below(as.size())];
            auto& y = bs[rng.below(bs.size())];
            const bool eq = compare(*x.a, *y.a, x.group, y.group, name, x.what, y.what);
            stat("cross_type");
            const size_t n = unit * rng.range(1, 3);
            trace = mix(trace ^ n ^ (uint64_t(eq) << 9));
            if (rng.chance(1, 2))
            {
                void* p = bytes<A>::get(*x.a, n);
                if (!p) continue;
                memset(p, 1, n);
                if (x.a && *x.a == *y.a) { bytes<B>::put(*y.a, p, n); stat("returned_through_equal"); }
                else bytes<A>::put(*x.a, p, n);
            }
            else
            {
                void* p = bytes<B>::get(*y.a, n);
                if (!p) continue;
                memset(p, 1, n);
                if (*y.a == *x.a) { bytes<A>::put(*x.a, p, n); stat("returned_through_equal"); }
                else bytes<B>::put(*y.a, p, n);
            }
            VF_CHECK(w.error.empty(), "equal-but-not-interchangeable", "%s: %s and %s: %s", name, x.what, y.what, w.error.c_str());
        }
        sig(trace);
        digest(trace);
        stat((std::string("cases:") + name).c_str());
    }

    using L0 = leafs::leaf<0, leafs::OWNS>;
    using L1 = leafs::leaf<1, leafs::OWNS>;
    using G0 = leafs::leaf<3, leafs::OWNS | leafs::SHARED>;
    using G1 = leafs::leaf<4, leafs::OWNS | leafs::SHARED>;
    using namespace ktl;

    // A stateless one, written by a user
    struct plain
    {
        void* allocate(size_t n) noexcept { return malloc(n); }
        void deallocate(void* p, size_t) noexcept { free(p); }
        bool operator==(const plain&) const noexcept { return true; }
        bool operator!=(const plain&) const noexcept { return false; }
    };

    template<typename H>
    void shared_kind(const char* name, Rng& rng)
    {
        H a, b(a), c, d(c), e(b);
        H gone, taken(std::move(gone)), gone2, taken2(std::move(gone2));
        H to;
        if (rng.chance(1, 2)) { e = d; judge<H>(name, { { &a, 1, "a" }, { &b, 1, "copy of a" }, { &c, 2, "c" }, { &d, 2, "copy of c" }, { &e, 2, "reassigned to c" }, { &taken, 3, "moved" }, { &taken2, 4, "moved" } }, rng); }
        else { to = std::move(b); judge<H>(name, { { &a, 1, "a" }, { &to, 1, "moved copy of a" }, { &c, 2, "c" }, { &d, 2, "copy of c" }, { &taken, 3, "moved" } }, rng); }
        // Moved-from ones can be compared, with anything
        const H *all[] = { &a, &b, &c, &gone, &gone2, &taken };
        for (auto x : all)
            for (auto y : all)
                compare(*x, *y, x == y ? 1 : ANY, x == y ? 1 : ANY, name, x == &gone || x == &gone2 ? "moved-from" : "handle", y == &gone || y == &gone2 ? "moved-from" : "handle");
        compare(gone, taken, 1, 2, name, "moved-from", "what it was moved to");
        stat("moved_from_compared");
    }

    template<typename P, typename F, typename Make>
    void parts_kind(const char* name, Rng& rng, Make make)
    {
        P p1, p2;
        F f1, f2;
        auto a = make(p1, f1), b = make(p1, f1), c = make(p1, f2), d = make(p2, f1), e = make(p2, f2), g = make(p2, f2);
        using A = std::decay_t<decltype(a)>;
        judge<A>(name, { { &a, 11, "(p1,f1)" }, { &b, 11, "(p1,f1)'" }, { &c, 12, "(p1,f2)" }, { &d, 21, "(p2,f1)" }, { &e, 22, "(p2,f2)" }, { &g, 22, "(p2,f2)'" } }, rng);
        A h(a);
        judge<A>(name, { { &a, 11, "(p1,f1)" }, { &h, 11, "copy of (p1,f1)" }, { &c, 12, "(p1,f2)" }, { &d, 21, "(p2,f1)" } }, rng);
    }

    void run_case(uint64_t idx, Rng& rng)
    {
        auto& w = leafs::world();
        w.reset();
        switch (idx % 34)
        {
        case 0: { mallocator a, b, c(a); vf::detail("mallocator"); judge<mallocator>("mallocator", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 1, "c" } }, rng); break; }
        case 1: { null_allocator a, b, c(a); vf::detail("null"); judge<null_allocator>("null_allocator", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 1, "c" } }, rng); break; }
        case 2: { using A = linear_allocator<512>; A a[4]; vf::detail("linear"); judge<A>("linear_allocator", { { &a[0], 1, "a" }, { &a[1], 2, "b" }, { &a[2], 3, "c" }, { &a[3], 4, "d" } }, rng); break; }
        case 3: { using A = linear_allocator<1>; A a[3]; vf::detail("linear<1>"); judge<A>("linear_allocator<1>", { { &a[0], 1, "a" }, { &a[1], 2, "b" }, { &a[2], 3, "c" } }, rng); break; }
        case 4:
        {
            using A = stack_allocator<1024>;
            vf::detail("stack_allocator");
            stack<1024> s, t;
            A a(s), b(s), c(t), d(c), e(a);
            e = c;
            judge<A>("stack_allocator", { { &a, 1, "a" }, { &b, 1, "b on the same" }, { &c, 2, "c" }, { &d, 2, "copy of c" }, { &e, 2, "reassigned to c" } }, rng);
            break;
        }
        case 5:
        {
            vf::detail("type stack");
            stack<2048> s, t;
            type_stack_allocator<double, 2048> a(s), b(a), c(t);
            type_stack_allocator<uint16_t, 2048> d(s), e(c), f(t);
            judge<type_stack_allocator<double, 2048>>("type<8,stack>", { { &a, 1, "a" }, { &b, 1, "copy" }, { &c, 2, "c" } }, rng);
            judge_types<type_stack_allocator<double, 2048>, type_stack_allocator<uint16_t, 2048>>("type<8|2,stack>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" } }, { { &d, 1, "d" }, { &e, 2, "e" }, { &f, 2, "f" } }, rng);
            break;
        }
        case 6: { using A = global<G0>; A a, b, c(a); a.set_allocator(G0()); vf::detail("global<leaf>"); judge<A>("global<leaf>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 1, "c" } }, rng); break; }
        case 7: { using A = global<linear_allocator<4096>>; A a, b, c(a); vf::detail("global<linear>"); judge<A>("global<linear>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 1, "c" } }, rng); break; }
        case 8:
        {
            using A = type_allocator<int, global<G0>>;
            using B = type_allocator<double, global<G0>>;
            vf::detail("type global");
            A a, b(a);
            B c, d(a);
            a.get_allocator().set_allocator(G0());
            judge<A>("type<4,global>", { { &a, 1, "a" }, { &b, 1, "b" } }, rng);
            judge_types<A, B>("type<4|8,global>", { { &a, 1, "a" }, { &b, 1, "b" } }, { { &c, 1, "c" }, { &d, 1, "d" } }, rng);
            break;
        }
        case 9:
        {
            using A = reference<L0>;
            vf::detail("reference<leaf>");
            L0 x, y;
            A a(x), b(x), c(y), d(a), e(a);
            e = c;
            judge<A>("reference<leaf>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" }, { &d, 1, "copy of a" }, { &e, 2, "reassigned to c" } }, rng);
            break;
        }
        case 10:
        {
            using A = reference<linear_allocator<700>>;
            vf::detail("reference<linear>");
            linear_allocator<700> x, y;
            A a(x), b(x), c(y);
            judge<A>("reference<linear>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" } }, rng);
            using T = type_allocator<short, A>;
            using U = type_allocator<long, A>;
            T t(x), u(y);
            U v(t), z(y);
            judge_types<T, U>("type<2|8,reference<linear>>", { { &t, 1, "t" }, { &u, 2, "u" } }, { { &v, 1, "v" }, { &z, 2, "z" } }, rng);
            break;
        }
        case 11: { using A = reference<mallocator>; mallocator x, y; A a(x), b(x), c(y); vf::detail("reference<mallocator>"); judge<A>("reference<mallocator>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, ANY, "c" } }, rng); break; }
        case 12: vf::detail("shared"); shared_kind<shared<L0>>("shared<leaf>", rng); break;
        case 13: vf::detail("atomic_shared"); shared_kind<atomic_shared<L0>>("atomic_shared<leaf>", rng); break;
        case 14: vf::detail("shared<linear>"); shared_kind<shared<linear_allocator<900>>>("shared<linear>", rng); break;
        case 15:
        {
            using A = shared<mallocator>;
            vf::detail("shared<mallocator>");
            A a, b(a), c;
            judge<A>("shared<mallocator>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, ANY, "c" } }, rng);
            break;
        }
        case 16:
        {
            using A = type_allocator<int, shared<L0>>;
            using B = type_allocator<char, shared<L0>>;
            vf::detail("type shared");
            A a, b(a), c, d(std::move(b));
            B e(a), f(c), g, h(std::move(e));
            judge<A>("type<4,shared>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" }, { &d, 1, "moved from b" } }, rng);
            judge_types<A, B>("type<4|1,shared>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" }, { &d, 1, "d" } }, { { &e, 1, "e" }, { &f, 2, "f" }, { &g, 3, "g" }, { &h, 1, "h" } }, rng);
            break;
        }
        case 17: { using A = overflow<G0, std::ostringstream>; std::ostringstream os; vf::detail("overflow"); A a(os), b(os); judge<A>("overflow<shared leaf>", { { &a, 1, "a" }, { &b, 1, "b" } }, rng); break; }
        case 18:
        {
            using A = overflow<shared<L0>, std::ostringstream>;
            std::ostringstream os;
            vf::detail("overflow<shared>");
            shared<L0> x, y;
            A a(os, x), b(os, x), c(os, y);
            judge<A>("overflow<shared<leaf>>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" } }, rng);
            break;
        }
        case 19: vf::detail("fallback"); parts_kind<shared<L0>, shared<L1>>("fallback<shared,shared>", rng, [](auto& p, auto& f) { return fallback<shared<L0>, shared<L1>>(p, f); }); break;
        case 20: vf::detail("segragator"); parts_kind<shared<L0>, shared<L1>>("segragator<64,shared,shared>", rng, [](auto& p, auto& f) { return segragator<64, shared<L0>, shared<L1>>(p, f); }); break;
        case 21: vf::detail("fallback(refusing)"); w.cfg[0].maxSingle = 40;
            parts_kind<shared<L0>, shared<L1>>("fallback<refusing,shared>", rng, [](auto& p, auto& f) { return fallback<shared<L0>, shared<L1>>(p, f); }); break;
        case 22:
            vf::detail("fallback(3)");
            parts_kind<shared<L0>, shared<L1>>("fallback<shared,fallback<null,shared>>", rng, [](auto& p, auto& f) {
                using In = fallback<null_allocator, shared<L1>>;
                return fallback<shared<L0>, In>(p, In(null_allocator(), f)); });
            break;
        case 23:
            vf::detail("segragator<fallback>");
            w.cfg[0].maxSingle = 20;
            parts_kind<shared<L0>, shared<L1>>("segragator<32,fallback,shared>", rng, [](auto& p, auto& f) {
                using In = fallback<shared<L0>, shared<L1>>;
                return segragator<32, In, shared<L1>>(In(p, f), f); });
            break;
        case 24:
        {
            using A = freelist<16, 96, G0>;
            vf::detail("freelist");
            A a, b, c;
            judge<A>("freelist<16,96,shared leaf>", { { &a, ANY, "a" }, { &b, ANY, "b" }, { &c, ANY, "c" } }, rng);
            break;
        }
        case 25:
        {
            using A = freelist<0, 64, shared<L0>>;
            vf::detail("freelist<shared>");
            shared<L0> x, y;
            A a(x), b(y), c(x);
            for (int k = 0; k < 3; k++) // one source or another: never equal
            {
                compare(a, b, 1, 2, "freelist<0,64,shared<leaf>>", "over x", "over y");
                compare(b, c, 2, 1, "freelist<0,64,shared<leaf>>", "over y", "over x");
                judge<A>("freelist<0,64,shared<leaf>>", { { &a, ANY, "a over x" }, { &b, ANY, "b over y" }, { &c, ANY, "c over x" } }, rng);
            }
            break;
        }
        case 26:
        {
            using A = shared<freelist<0, 64, L0>>;
            vf::detail("shared<freelist>");
            A a, b(a), c;
            judge<A>("shared<freelist>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" } }, rng);
            break;
        }
        case 27:
        {
            using A = cascading<linear_allocator<256>>;
            vf::detail("cascading");
            A a, b, c;
            compare(a, b, ANY, ANY, "cascading<linear>", "unused", "unused");
            void *p = a.allocate(10), *q = b.allocate(20), *r = c.allocate(30);
            judge<A>("cascading<linear>", { { &a, 1, "a" }, { &b, 2, "b" }, { &c, 3, "c" } }, rng);
            if (p) a.deallocate(p, 10);
            if (q) b.deallocate(q, 20);
            if (r) c.deallocate(r, 30);
            break;
        }
        case 28:
        {
            using A = shared<cascading<L0>>;
            vf::detail("shared<cascading>");
            w.cfg[0].cap = 100;
            A a, b(a), c;
            void *p = a.allocate(10), *q = c.allocate(20);
            judge<A>("shared<cascading<leaf>>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" } }, rng);
            if (p) b.deallocate(p, 10);
            if (q) c.deallocate(q, 20);
            break;
        }
        case 29: { using A = threaded<linear_allocator<512>>; A a, b, c; vf::detail("threaded<linear>"); judge<A>("threaded<linear>", { { &a, 1, "a" }, { &b, 2, "b" }, { &c, 3, "c" } }, rng); break; }
        case 30: { using A = threaded<mallocator>; A a, b; vf::detail("threaded<mallocator>"); judge<A>("threaded<mallocator>", { { &a, 1, "a" }, { &b, 1, "b" } }, rng); break; }
        case 31:
        {
            using A = atomic_shared<threaded<L0>>;
            vf::detail("atomic_shared<threaded>");
            A a, b(a), c, d(c);
            judge<A>("atomic_shared<threaded<leaf>>", { { &a, 1, "a" }, { &b, 1, "b" }, { &c, 2, "c" }, { &d, 2, "d" } }, rng);
            break;
        }
        case 32:
        {
            using A = type_allocator<int, mallocator>;
            using B = type_allocator<double, mallocator>;
            vf::detail("type mallocator");
            A a, b;
            B c, d(a);
            judge<A>("type<4,mallocator>", { { &a, 1, "a" }, { &b, 1, "b" } }, rng);
            judge_types<A, B>("type<4|8,mallocator>", { { &a, 1, "a" }, { &b, 1, "b" } }, { { &c, 1, "c" }, { &d, 1, "d" } }, rng);
            break;
        }
        case 33:
        {
            vf::detail("threaded<fallback<shared>>");
            using In = fallback<shared<L0>, shared<L1>>;
            using A = threaded<In>;
            shared<L0> p1, p2;
            shared<L1> f1, f2;
            A a(p1, f1), b(p1, f2), c(p2, f1), d(p1, f1);
            judge<A>("threaded<fallback>", { { &a, 1, "a" }, { &b, 2, "b" }, { &c, 3, "c" }, { &d, 1, "d" } }, rng);
            break;
        }
        }
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c14", run_case); }
