// C07: linear_allocator and stack_allocator against a reference model of an arena.
#include "vf.h"
#include <ktl/ktl.h>
#include <functional>
#include <memory>

using namespace vf;

namespace
{
    constexpr size_t AL = alignof(std::max_align_t);

    struct Arena
    {
        virtual ~Arena() = default;
        virtual void* allocate(size_t n, Rng&) = 0;
        virtual void deallocate(void* p, size_t n, Rng&) = 0;
        virtual const char* lo() = 0;       // the memory that may be handed out lies within
        virtual const char* hi() = 0;
        virtual const char* base() { return nullptr; } // if it is known
        virtual size_t unit() { return 1; }
        virtual void shuffle(Rng&) {}       // make or drop handles
        virtual bool renew() { return false; } // assign a new one, which gives up everything in it
    };

    template<size_t N>
    struct Linear : Arena
    {
        ktl::linear_allocator<N> a;
        void* allocate(size_t n, Rng&) override { return a.allocate(n); }
        void deallocate(void* p, size_t n, Rng&) override { a.deallocate(p, n); }
        const char* lo() override { return reinterpret_cast<const char*>(&a); }
        const char* hi() override { return reinterpret_cast<const char*>(&a + 1); }
        bool renew() override { auto fresh = std::make_unique<ktl::linear_allocator<N>>(); a = std::move(*fresh); return true; }
    };

    template<size_t N, typename T>
    struct LinearTyped : Arena
    {
        ktl::linear_allocator<N> a;
        std::vector<ktl::type_allocator<T, ktl::reference<ktl::linear_allocator<N>>>> h{ ktl::type_allocator<T, ktl::reference<ktl::linear_allocator<N>>>(a) };
        void* allocate(size_t n, Rng& r) override { return r.pick(h).allocate(n / sizeof(T)); }
        void deallocate(void* p, size_t n, Rng& r) override { r.pick(h).deallocate(static_cast<T*>(p), n / sizeof(T)); }
        const char* lo() override { return reinterpret_cast<const char*>(&a); }
        const char* hi() override { return reinterpret_cast<const char*>(&a + 1); }
        size_t unit() override { return sizeof(T); }
        void shuffle(Rng& r) override
        {
            if (h.size() < 5) h.push_back(r.pick(h));
            else h.erase(h.begin() + ptrdiff_t(r.below(h.size())));
        }
    };

    template<size_t N>
    struct Stack : Arena
    {
        std::unique_ptr<ktl::stack<N>> s{ new ktl::stack<N> };
        std::vector<ktl::stack_allocator<N>> h{ ktl::stack_allocator<N>(*s) };
        void* allocate(size_t n, Rng& r) override { return r.pick(h).allocate(n); }
        void deallocate(void* p, size_t n, Rng& r) override { r.pick(h).deallocate(p, n); }
        const char* lo() override { return s->Data; }
        const char* hi() override { return s->Data + N; }
        const char* base() override { return s->Data; }
        void shuffle(Rng& r) override
        {
            switch (r.below(4))
            {
            case 0: if (h.size() < 6) h.push_back(r.pick(h)); break;
            case 1: if (h.size() < 6) h.push_back(ktl::stack_allocator<N>(s.get())); break;
            case 2: if (h.size() > 1) h.erase(h.begin() + ptrdiff_t(r.below(h.size()))); break;
            default: { ktl::stack_allocator<N> m(std::move(h[0])); h[0] = m; h[r.below(h.size())] = std::move(m); }
            }
        }
    };

    struct Entry { std::string name; size_t N; std::function<std::unique_ptr<Arena>()> make; };
    std::vector<Entry>& entries() { static auto* e = new std::vector<Entry>; return *e; }

    template<size_t N>
    void reg()
    {
        entries().push_back({ fmt("linear_allocator<%zu>", N), N, [] { return std::unique_ptr<Arena>(new Linear<N>); } });
        entries().push_back({ fmt("stack_allocator<%zu>", N), N, [] { return std::unique_ptr<Arena>(new Stack<N>); } });
    }
    template<size_t N, typename T>
    void regt() { entries().push_back({ fmt("type<%zuB,reference<linear_allocator<%zu>>>", sizeof(T), N), N, [] { return std::unique_ptr<Arena>(new LinearTyped<N, T>); } }); }

    struct P24 { char c[24]; };
    void build()
    {
        reg<1>(); reg<15>(); reg<16>(); reg<17>(); reg<31>(); reg<32>(); reg<40>(); reg<48>(); reg<64>(); reg<100>(); reg<112>(); reg<128>(); reg<255>(); reg<256>();
        reg<1000>(); reg<1024>(); reg<4096>(); reg<10000>(); reg<65536>(); reg<65544>(); reg<131080>(); reg<(1 << 20)>(); reg<(1 << 20) + 33>();
        regt<512, uint64_t>(); regt<1000, P24>(); regt<70000, uint16_t>();
    }

    size_t up(size_t n) { return (n + AL - 1) / AL * AL; }

    struct Held { char* p; size_t n; };

    void run_case(uint64_t idx, Rng& rng)
    {
        if (entries().empty()) build();
        const Entry& e = entries()[idx % entries().size()];
        detail("%s", e.name.c_str());
        stat(("cases:" + e.name).c_str());
        auto a = e.make();
        const size_t u = a->unit();
        const char* base = a->base();
        size_t top = 0, outstanding = 0;
        std::vector<Held> held;
        uint64_t trace = hash_str(e.name.c_str()), served = 0;
        const unsigned lifo = unsigned(rng.below(101)), style = unsigned(rng.below(4));
        unsigned bias = 60;
        const size_t ops = rng.range(10, 400);
        auto remove = [&](size_t k) {
            Held h = held[k];
            held.erase(held.begin() + ptrdiff_t(k));
            a->deallocate(h.p, h.n, rng);
            const size_t t = up(h.n);
            if (h.p + t == base + top && t) { top -= t; stat("rewinds"); }
            else stat("returns_without_rewind");
            outstanding -= t;
            if (outstanding == 0)
            {
                if (top) stat("rewinds_when_empty");
                top = 0;
                // an arena with only empty blocks in it need not count as empty
                for (Held& z : held) a->deallocate(z.p, 0, rng);
                held.clear();
            }
        };
        for (size_t i = 0; i < ops; i++)
        {
            if (i % 32 == 0) bias = unsigned(rng.range(10, 95));
            if (rng.chance(1, 8)) a->shuffle(rng);
            if (held.empty() || rng.below(100) < bias)
            {
                const size_t rest = e.N - top;
                size_t n;
                switch (rng.below(style == 3 ? 9 : 7))
                {
                case 0: n = rest + rng.below(3) - 1; break;
                case 1: n = rest / AL * AL + rng.below(3) - 1; break;
                case 2: n = rng.below(rest + 2); break;
                case 3: n = rng.below(e.N + 40); break;
                case 4: n = rng.below(100) ? rng.below(64) : SIZE_MAX - rng.below(40); break;
                default: n = rng.below(1 + (style == 0 ? e.N / 4 : style == 1 ? e.N / 32 : 40)); break;
                }
                n = n / u * u;
                void* p = a->allocate(n, rng);
                const bool fits = n <= e.N && top + up(n) <= e.N;
                stat("requests");
                if (n == 0)
                {
                    if (p) held.push_back({ static_cast<char*>(p), 0 });
                    stat("empty_requests");
                    VF_CHECK(!p || !base || (static_cast<char*>(p) >= base && static_cast<char*>(p) <= base + top), "wrong-position", "an empty request was served outside the arena");
                    continue;
                }
                VF_CHECK(!p || fits, "served-beyond-capacity", "%zu bytes were served with %zu of %zu bytes used", n, top, e.N);
                VF_CHECK(p || !fits, "refused-within-capacity", "%zu bytes were refused with %zu of %zu bytes used (%zu outstanding)", n, top, e.N, outstanding);
                trace = mix(trace ^ n) + (p ? 1 : 0);
                if (!p) { stat("refusals"); continue; }
                served++;
                char* c = static_cast<char*>(p);
                if (!base) base = c;
                VF_CHECK(c == base + top, "wrong-position", "%zu bytes were placed %zd bytes from the start, expected %zu", n, ptrdiff_t(c - base), top);
                VF_CHECK(c >= a->lo() && c + n <= a->hi(), "outside-arena", "%zu bytes were placed outside the arena", n);
                std::memset(c, int(i), n);
                held.push_back({ c, n });
                top += up(n);
                outstanding += up(n);
                if (top == e.N) stat("exactly_full");
            }
            else
            {
                const size_t k = rng.below(100) < lifo ? held.size() - 1 : rng.below(held.size());
                trace = mix(trace ^ (k + 77));
                remove(k);
            }
            if (rng.chance(1, 60))
            {
                while (!held.empty()) remove(rng.chance(1, 2) ? held.size() - 1 : rng.below(held.size()));
                stat("drained");
            }
            if (rng.chance(1, 80))
            {
                // the blocks are given up rather than returned
                const bool idle = outstanding == 0;
                if (a->renew())
                {
                    held.clear();
                    top = outstanding = 0;
                    trace = mix(trace ^ 99);
                    stat(idle ? "renewed_while_idle" : "renewed");
                }
            }
        }
        while (!held.empty()) remove(rng.below(held.size()));
        // the whole arena is available again
        const size_t whole = e.N / AL * AL / u * u;
        if (whole)
        {
            void* p = a->allocate(whole, rng);
            VF_CHECK(p && (!base || p == base), "refused-within-capacity", "after everything was returned, all %zu bytes are not available", whole);
            a->deallocate(p, whole, rng);
            stat("whole_arena");
        }
        if (served) sig(trace);
        digest(trace);
        sample(fmt("%s: %zu operations, %llu served", e.name.c_str(), ops, (unsigned long long)served));
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c07", run_case); }
