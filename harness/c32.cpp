// C32: separate instances are independent. Every actor has allocators or containers of its own and a random history on them. Its results must be
// the same when it is alone, when its operations interleave with those of others in one thread, and when each has a thread of its own.
#include "shadow.h"
#include "subjects.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <atomic>
#include <map>
#include <memory>
#include <thread>

using namespace vf;
using namespace ktl;

namespace
{
    struct Actor
    {
        Rng rng;
        uint64_t result = 0, steps = 0, operations = 0;
        std::string error, name;
        explicit Actor(uint64_t seed) : rng(seed) {}
        virtual ~Actor() = default;
        virtual void step() = 0;
        virtual void end() {}
        void note(uint64_t x) { result = mix(result ^ x) + x; operations++; }
        void wrong(const char* what) { if (error.empty()) error = what; }
    };

    // A random client of one allocator
    struct Client : Actor
    {
        const Spec& spec;
        std::unique_ptr<Subject> s;
        Shadow shadow;
        Client(uint64_t seed, const Spec& sp) : Actor(seed), spec(sp), s(sp.make()), shadow(seed) { name = sp.name; }

        size_t size()
        {
            size_t n = 0;
            switch (rng.below(4))
            {
            case 0: n = spec.sizes[rng.below(spec.sizes.size())]; break;
            case 1: n = spec.sizes[rng.below(spec.sizes.size())] + rng.below(3); n = n ? n - 1 : 0; break;
            default: n = rng.below(spec.typical + 1); break;
            }
            return (n + spec.unit - 1) / spec.unit * spec.unit;
        }
        void give(size_t i)
        {
            Block b = shadow.takeFast(i);
            if (verify(b.p, b.n, b.id) != SIZE_MAX) wrong("the contents of a block changed");
            s->deallocate(b.p, b.n);
        }
        void step() override
        {
            const unsigned r = unsigned(rng.below(100));
            if (r < 55)
            {
                const size_t n = size();
                void* p = s->allocate(n);
                note(n << 1 | (p != nullptr));
                if (p && !shadow.add(p, n)) wrong("two live blocks overlap");
            }
            else if (r < 85) { if (!shadow.live.empty()) { const size_t i = rng.below(shadow.live.size()); note(i); give(i); } }
            else if (r < 90) { size_t m = 0; const bool o = s->max_size(&m); note(o ? m : 7); }
            else if (r < 97)
            {
                if (shadow.live.empty()) return;
                const Block& b = shadow.live[rng.below(shadow.live.size())];
                note(uint64_t(s->owns(b.p) + 2));
                int local = 0;
                note(uint64_t(s->owns(&local) + 2));
            }
            else if (rng.chance(1, 3))
            {
                while (!shadow.live.empty()) give(shadow.live.size() - 1);
                s = spec.make(); // another one, now and then
            }
        }
        void end() override
        {
            if (!s->guards_ok()) wrong("memory around an allocator was written to");
            while (!shadow.live.empty()) give(rng.below(shadow.live.size()));
            s.reset();
        }
    };

    template<typename V, typename Make>
    struct Vector : Actor
    {
        V v;
        Vector(uint64_t seed, Make make) : Actor(seed), v(make()) {}
        void step() override
        {
            typedef std::decay_t<decltype(v[0])> T;
            switch (rng.below(8))
            {
            case 0: case 1: case 2: v.push_back(T(rng.next())); break;
            case 3: if (v.size() > 0) v.erase(v.begin() + rng.below(v.size())); break;
            case 4: v.reserve(rng.below(100)); break;
            case 5: { V w(v); w.push_back(T(1)); note(w.size()); break; }
            case 6: { V w(std::move(v)); v = w; break; }
            default: if (v.size() > 300) v.clear(); break;
            }
            uint64_t h = v.size();
            for (auto& x : v) h = mix(h ^ uint64_t(x));
            note(h);
        }
    };

    template<typename H, typename Make>
    struct Heap : Actor
    {
        H h;
        Heap(uint64_t seed, Make make) : Actor(seed), h(make()) {}
        void step() override
        {
            if (h.size() > 0 && rng.chance(2, 5)) note(uint64_t(h.pop()));
            else h.insert(int(rng.below(50)));
            if (h.size() > 0) note(uint64_t(h.peek()));
            note(h.find(int(rng.below(50))) != h.end());
            if (rng.chance(1, 10)) { H g(h); while (g.size() > 0) note(uint64_t(g.pop())); }
        }
    };

    template<typename A, typename Make>
    struct Array : Actor
    {
        A a;
        Array(uint64_t seed, Make make) : Actor(seed), a(make()) {}
        void step() override
        {
            typedef std::decay_t<decltype(a[0])> T;
            const size_t old = a.size();
            switch (rng.below(4))
            {
            case 0: { const size_t n = rng.below(60); a.resize(n); for (size_t i = old; i < n; i++) a[i] = T(rng.next()); break; }
            case 1: { T x[5] = { T(rng.next()), 1, 2, 3, 4 }; a.assign(x, x + rng.below(6)); break; }
            case 2: { A b(a); if (b.size() > 0) b[0] = T(9); a = b; break; }
            default: if (old) a[rng.below(old)] = T(rng.next()); break;
            }
            uint64_t h = a.size();
            for (auto& x : a) h = mix(h ^ uint64_t(x));
            note(h);
        }
    };

    struct Small : Actor
    {
        trivial_buffer<uint16_t, 9> b;
        uint64_t target[4] = {};
        packed_ptr<uint64_t*, 3> p;
        explicit Small(uint64_t seed) : Actor(seed), b(uint16_t(0)), p(target, 0u) { name = "trivial_buffer and packed_ptr"; }
        void step() override
        {
            b.at(rng.below(40)) = uint16_t(rng.next());
            for (auto x : b) note(x);
            const size_t i = rng.below(4);
            if (rng.chance(1, 2)) p.set_ptr(target + i); else p.set_int(unsigned(rng.below(8)));
            note(uint64_t(p.get_ptr() - target) << 8 | uint64_t(p.get_int<unsigned>()));
        }
    };

    struct Standard : Actor
    {
        typedef type_shared<std::pair<const int, int>, segragator<64, freelist<0, 64, mallocator>, mallocator>> A;
        std::map<int, int, std::less<int>, A> m;
        explicit Standard(uint64_t seed) : Actor(seed) { name = "std::map"; }
        void step() override
        {
            if (rng.chance(1, 2)) m[int(rng.below(100))] = int(rng.next());
            else m.erase(int(rng.below(100)));
            uint64_t h = m.size();
            for (auto& kv : m) h = mix(h ^ uint64_t(kv.first) << 32 ^ uint32_t(kv.second));
            note(h);
        }
    };

    std::vector<const Spec*>& allocators()
    {
        static auto* v = [] {
            auto* r = new std::vector<const Spec*>;
            register_all();
            for (auto& s : registry())
                if (!s.leafy && s.name.find("leaf") == std::string::npos && s.name.find("global") == std::string::npos) r->push_back(&s);
            return r;
        }();
        return *v;
    }

    template<template<typename, typename> class K, typename C, typename F>
    std::unique_ptr<Actor> named(const char* n, uint64_t seed, F f)
    {
        std::unique_ptr<Actor> a(new K<C, F>(seed, f));
        a->name = n;
        return a;
    }

    constexpr unsigned CONTAINERS = 10;
    std::unique_ptr<Actor> container(unsigned k, uint64_t seed)
    {
        switch (k % CONTAINERS)
        {
        case 0: { typedef trivial_vector<uint64_t, type_mallocator<uint64_t>> V; return named<Vector, V>("trivial_vector on the heap", seed, [] { return V(); }); }
        case 1: { typedef trivial_vector<uint16_t, type_shared<uint16_t, cascading<linear_allocator<4096>>>> V; return named<Vector, V>("trivial_vector on shared cascading", seed, [] { return V(); }); }
        case 2: { typedef trivial_array<uint32_t, type_shared<uint32_t, fallback<linear_allocator<2048>, mallocator>>> V; return named<Array, V>("trivial_array on shared fallback", seed, [] { return V(); }); }
        case 3: { typedef binary_heap<int, std::less<int>, type_mallocator<int>> H; return named<Heap, H>("binary_heap on the heap", seed, [] { return H(); }); }
        case 4: { typedef binary_heap<int, std::greater<int>, type_shared<int, segragator<64, freelist<0, 64, mallocator>, mallocator>>> H; return named<Heap, H>("binary_heap on shared segragator", seed, [] { return H(); }); }
        case 5: return std::unique_ptr<Actor>(new Small(seed));
        case 6: return std::unique_ptr<Actor>(new Standard(seed));
        case 7: { typedef trivial_array<uint8_t, type_mallocator<uint8_t>> V; return named<Array, V>("trivial_array on the heap", seed, [] { return V(); }); }
        case 8: { typedef trivial_vector<int, type_atomic_shared<int, threaded<fallback<linear_allocator<1024>, mallocator>>>> V; return named<Vector, V>("trivial_vector on atomic_shared threaded", seed, [] { return V(); }); }
        default: { typedef trivial_vector<int, type_shared<int, segragator<256, freelist<0, 256, fallback<linear_allocator<1024>, mallocator>>, mallocator>>> V; return named<Vector, V>("trivial_vector on shared freelist", seed, [] { return V(); }); }
        }
    }

    struct Role { bool alloc; unsigned kind; uint64_t seed; size_t steps; };
    std::unique_ptr<Actor> cast(const Role& r)
    {
        return r.alloc ? std::unique_ptr<Actor>(new Client(r.seed, *allocators()[r.kind])) : container(r.kind, r.seed);
    }

    // Several threads only look at what one of them made
    void readers(Rng& rng)
    {
        typedef trivial_vector<uint32_t, type_mallocator<uint32_t>> V;
        typedef trivial_array<uint32_t, type_mallocator<uint32_t>> Ar;
        typedef binary_heap<uint32_t, std::less<uint32_t>, type_mallocator<uint32_t>> H;
        V v; H h; trivial_buffer<uint32_t, 7> b(uint32_t(3));
        const size_t n = rng.range(0, 60);
        for (size_t i = 0; i < n; i++) { v.push_back(uint32_t(rng.below(40))); h.insert(uint32_t(rng.below(40))); b[i % 7] = uint32_t(rng.next()); }
        Ar a(v.begin(), v.end());
        uint64_t* target = new uint64_t[2];
        packed_ptr<uint64_t*, 3> p(target, 5u);
        typedef fallback<linear_allocator<512>, cascading<linear_allocator<256>>> Al;
        Al al;
        segragator<64, freelist<0, 64, linear_allocator<512>>, linear_allocator<256>> sg;
        void* p1 = al.allocate(300); void* p2 = al.allocate(250); void* p3 = sg.allocate(40);
        auto look = [&]() -> uint64_t {
            const V& cv = v; const Ar& ca = a; const H& ch = h; const auto& cb = b; const Al& cal = al; const auto& csg = sg;
            uint64_t r = cv.size() ^ cv.capacity() << 8 ^ ca.size() << 16 ^ ch.size() << 24;
            for (auto& x : cv) r = mix(r ^ x);
            for (auto& x : ca) r = mix(r ^ x);
            for (auto& x : cb) r = mix(r ^ x);
            for (uint32_t i = 0; i < 40; i += 7) r = mix(r ^ uint64_t(ch.find(i) != ch.end()));
            for (size_t i = 0; i < cv.size(); i++) r = mix(r ^ cv[i] ^ ca[i] << 4);
            r = mix(r ^ uint64_t(p.get_int<unsigned>()) ^ uint64_t(p.get_ptr() == target) << 9);
            r = mix(r ^ uint64_t(cal.owns(p1)) ^ uint64_t(cal.owns(p2)) << 1 ^ uint64_t(csg.owns(p3)) << 2 ^ uint64_t(cal.max_size()) << 8 ^ uint64_t(csg.max_size()) << 20);
            V w(cv); H g(ch); Ar c(ca);
            r = mix(r ^ w.size() ^ g.size() << 8 ^ c.size() << 16);
            return r;
        };
        const uint64_t alone = look();
        const size_t T = rng.range(2, 4);
        std::vector<uint64_t> seen(T, 0);
        {
            std::atomic<size_t> ready{ 0 };
            std::vector<std::thread> ts;
            for (size_t t = 0; t < T; t++)
                ts.emplace_back([&, t] {
                    ready.fetch_add(1);
                    while (ready.load() < T) {}
                    uint64_t x = 0;
                    for (int k = 0; k < 4; k++) { x = look(); if (x != alone) break; }
                    seen[t] = x;
                });
            for (auto& t : ts) t.join();
        }
        for (size_t t = 0; t < T; t++) VF_CHECK(seen[t] == alone, "readers-disagree", "a thread which only looks at containers sees other contents than the thread which made them");
        al.deallocate(p2, 250); al.deallocate(p1, 300); sg.deallocate(p3, 40);
        delete[] target;
        stat("shared_readers", T);
        sig(mix(alone ^ T));
    }
}

static void run_case(uint64_t idx, Rng& rng)
{
    auto& all = allocators();
    if (idx % 8 == 7) { vf::detail("readers"); readers(rng); return; }
    const size_t n = rng.range(2, 6);
    std::vector<Role> roles;
    const bool same = rng.chance(1, 2);
    Role first{ rng.chance(3, 4), 0, 0, 0 };
    first.kind = first.alloc ? unsigned(idx % all.size()) : unsigned(rng.below(CONTAINERS));
    for (size_t i = 0; i < n; i++)
    {
        Role r = first;
        if (i && !same && rng.chance(2, 3)) { r.alloc = rng.chance(3, 4); r.kind = unsigned(rng.below(r.alloc ? all.size() : CONTAINERS)); }
        r.seed = rng.next();
        r.steps = rng.range(5, 120);
        roles.push_back(r);
    }
    std::vector<uint64_t> alone;
    std::string what;
    uint64_t trace = 0;
    for (auto& r : roles)
    {
        auto a = cast(r);
        vf::detail("%s, alone", a->name.c_str());
        for (size_t k = 0; k < r.steps; k++) a->step();
        a->end();
        VF_CHECK(a->error.empty(), "alone", "%s: %s", a->name.c_str(), a->error.c_str());
        alone.push_back(a->result);
        what += (what.empty() ? "" : " + ") + a->name;
        trace = mix(trace ^ a->result);
        stat("operations_alone", a->operations);
    }
    if (idx < 6) sample(what);
    auto judge = [&](std::vector<std::unique_ptr<Actor>>& as, const char* how, const char* key) {
        for (size_t i = 0; i < as.size(); i++)
        {
            VF_CHECK(as[i]->error.empty(), key, "%s: %s, while others were used %s (%.200s)", as[i]->name.c_str(), as[i]->error.c_str(), how, what.c_str());
            VF_CHECK(as[i]->result == alone[i], key, "%s: its results differ from those it has alone, while others were used %s (%.200s)", as[i]->name.c_str(), how, what.c_str());
        }
    };
    {
        vf::detail("%.200s, interleaved", what.c_str());
        std::vector<std::unique_ptr<Actor>> as;
        for (auto& r : roles) as.push_back(cast(r));
        std::vector<size_t> left;
        for (size_t i = 0; i < n; i++) left.push_back(i);
        std::vector<size_t> done(n, 0);
        while (!left.empty())
        {
            const size_t k = rng.below(left.size()), i = left[k];
            if (done[i]++ < roles[i].steps) as[i]->step();
            else { as[i]->end(); left.erase(left.begin() + ptrdiff_t(k)); }
        }
        judge(as, "in between", "interleaving-changes-results");
        stat("interleaved", n);
    }
    {
        vf::detail("%.200s, in threads", what.c_str());
        std::vector<std::unique_ptr<Actor>> as(n);
        std::atomic<size_t> ready{ 0 };
        std::vector<std::thread> ts;
        for (size_t i = 0; i < n; i++)
            ts.emplace_back([&, i] {
                ready.fetch_add(1);
                while (ready.load() < n) {}
                as[i] = cast(roles[i]);
                for (size_t k = 0; k < roles[i].steps; k++) as[i]->step();
                as[i]->end();
            });
        for (auto& t : ts) t.join();
        judge(as, "by other threads", "threads-change-results");
        stat("in_threads", n);
        uint64_t ops = 0;
        for (auto& a : as) ops += a->operations;
        stat("operations_in_threads", ops);
    }
    sig(trace);
    digest(trace);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c32", run_case); }
