// C13: one synchronised allocator used by many threads.
// VF_MODE: use (allocate, return, query, compare; all that is locked) or objects (construct and destroy).
#include "vf.h"
#include <ktl/ktl.h>
#include <algorithm>
#include <atomic>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <memory>
#include <mutex>
#include <new>
#include <sched.h>
#include <thread>
#include <chrono>

using namespace vf;

namespace
{
    thread_local uint64_t t_Calls = 0;       // calls which reached the wrapped allocator from this thread
    thread_local void* t_Last = nullptr;     // what the wrapped allocator answered last
    thread_local uint64_t t_Rand = 0;
    std::atomic<uint64_t> g_Heap{ 0 }, g_Contended{ 0 };
    std::atomic<int> g_Throw{ 0 };
    std::atomic<uint32_t> g_Order{ 0 };

    inline void dawdle() noexcept
    {
        if (!t_Rand) t_Rand = mix(reinterpret_cast<uintptr_t>(&t_Rand));
        t_Rand = mix(t_Rand);
        if ((t_Rand & 15) == 0) sched_yield();
        else
            for (unsigned i = 0; i < (t_Rand >> 8 & 63); i++) asm volatile("" ::: "memory");
    }

    // Source of memory which can be used from anywhere, and counts with relaxed atomics: it must not hide a missing lock
    struct source
    {
        void* allocate(size_t n) noexcept
        {
            void* p = n > (1u << 20) ? nullptr : ::operator new(n ? n : 1, std::nothrow);
            if (p) g_Heap.fetch_add(1, std::memory_order_relaxed);
            return p;
        }
        void deallocate(void* p, size_t) noexcept
        {
            g_Heap.fetch_sub(1, std::memory_order_relaxed);
            ::operator delete(p);
        }
        bool operator==(const source&) const noexcept { return true; }
        bool operator!=(const source&) const noexcept { return false; }
    };

    // Has its own idea of what it owns, and of its size; not protected in any way
    template<size_t N>
    struct counting
    {
        size_t out = 0;
        uintptr_t low = UINTPTR_MAX, high = 0;
        void* allocate(size_t n)
        {
            if (n > N || out > N - n) return nullptr;
            void* p = source().allocate(n);
            if (p)
            {
                out += n;
                const uintptr_t a = reinterpret_cast<uintptr_t>(p);
                if (a < low) low = a;
                if (a + n > high) high = a + n;
            }
            return p;
        }
        void deallocate(void* p, size_t n) { out -= n; source().deallocate(p, n); }
        bool owns(void* p) const { const uintptr_t a = reinterpret_cast<uintptr_t>(p); return a >= low && a < high; }
        size_t max_size() const { return N; }
        bool operator==(const counting& o) const { return this == &o; }
        bool operator!=(const counting& o) const { return this != &o; }
    };

    // Watches that whoever wraps it lets only one operation in at a time
    template<typename A, bool Objects = false>
    class gate
    {
    public:
        template<typename B = A, typename = std::enable_if_t<std::is_default_constructible_v<B>>>
        gate() {}
        gate(const gate&) = delete;
        gate& operator=(const gate&) = delete;

        struct inside
        {
            const gate& g;
            explicit inside(const gate& o, const char* what, bool late = false) : g(o)
            {
                const char* other = g.m_In.exchange(what, std::memory_order_relaxed);
                if (other) fail("overlap", "the wrapped allocator was asked to %s while it was busy (%s)", what, other);
                dawdle();
                g.m_Seen = g.m_Seen + 1; // a data race if nobody locks
                t_Calls++;
            }
            ~inside()
            {
                dawdle();
                g.m_In.store(nullptr, std::memory_order_relaxed);
            }
        };

        bool operator==(const gate& o) const
        {
            if (this == &o) { inside i(*this, "compare"); return m_A == o.m_A; }
            inside i(*this, "compare"), j(o, "compare");
            return m_A == o.m_A;
        }
        bool operator!=(const gate& o) const
        {
            if (this == &o) { inside i(*this, "compare"); return m_A != o.m_A; }
            inside i(*this, "compare"), j(o, "compare");
            return m_A != o.m_A;
        }
        void* allocate(size_t n)
        {
            inside i(*this, "allocate");
            if (g_Throw.load(std::memory_order_relaxed) && (mix(t_Calls ^ n) & 31) == 0) { t_Last = nullptr; throw std::bad_alloc(); }
            return t_Last = m_A.allocate(n);
        }
        void deallocate(void* p, size_t n)
        {
            inside i(*this, "deallocate");
            m_A.deallocate(p, n);
        }
        template<typename B = A>
        auto owns(void* p) const -> decltype(bool(std::declval<const B&>().owns(p)))
        {
            inside i(*this, "tell whether it owns memory");
            return m_A.owns(p);
        }
        template<typename B = A>
        auto max_size() const -> decltype(size_t(std::declval<const B&>().max_size()))
        {
            inside i(*this, "tell its maximum size");
            return m_A.max_size();
        }
        uint64_t seen() const { return m_Seen; }

    private:
        A m_A;
        mutable std::atomic<const char*> m_In{ nullptr };
        mutable uint64_t m_Seen = 0;
    };

    template<typename A, typename = void> struct offers_owns : std::false_type {};
    template<typename A> struct offers_owns<A, std::void_t<decltype(std::declval<const A&>().owns(std::declval<void*>()))>> : std::true_type {};
    template<typename A, typename = void> struct offers_max : std::false_type {};
    template<typename A> struct offers_max<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};

    struct Barrier
    {
        std::atomic<int> waiting{ 0 }, phase{ 0 };
        int n;
        explicit Barrier(int k) : n(k) {}
        void wait()
        {
            const int ph = phase.load();
            if (waiting.fetch_add(1) + 1 == n) { waiting = 0; phase++; }
            else
                while (phase.load() == ph) sched_yield();
        }
    };

    struct Blk { unsigned char* p; size_t n; uint64_t serial; };

    inline unsigned char pattern(uint64_t serial, size_t i) { return (unsigned char)(mix(serial + i / 64) >> (i % 8 * 8)); }
    inline void fill(const Blk& b) { for (size_t i = 0; i < b.n; i++) b.p[i] = pattern(b.serial, i); }
    inline void verify(const Blk& b, const char* name)
    {
        for (size_t i = 0; i < b.n; i++)
            if (b.p[i] != pattern(b.serial, i)) fail("block-shared", "%s: byte %zu of %zu of a thread's block was changed by somebody else", name, i, b.n);
    }

    struct Params
    {
        size_t maxBytes = 96;   // per request
        bool gated = true;      // the monitor sits inside
        size_t capacity = 0;    // what a drained one must serve again (0: nothing to check)
        bool unlimited = false; // never refuses
        bool stable = true;     // whether two of them are equal does not depend on what they hold at the moment
    };

    // Access is what each thread uses to reach the one allocator
    template<typename Make>
    void threads_on(Rng& rng, const char* name, const Params& p, Make make)
    {
        detail("%s", name);
        const int threads = int(rng.range(2, 6));
        const size_t steps = rng.range(20, 150);
        const bool pass = rng.chance(1, 2), throwing = p.gated && rng.chance(1, 4);
        const uint64_t seed = rng.next();
        const uint64_t heap0 = g_Heap.load();
        g_Throw = throwing;
        uint64_t refusals = 0;
        {
            auto world = make();          // owns the allocators
            auto& other = *world->second; // for comparing
            Barrier start(threads);
            std::mutex boxLock;
            std::vector<Blk> box;
            std::vector<std::vector<Blk>> rest(threads);
            std::atomic<uint64_t> refused{ 0 }, thrown{ 0 }, calls{ 0 };
            std::vector<uint8_t> order(size_t(threads) * steps + 1);
            g_Order = 0;
            auto body = [&](int t) {
                Rng r(mix(seed + uint64_t(t)));
                auto a = world->handle();      // a reference or a handle of this thread's own
                auto& A = *a;
                using Alloc = std::decay_t<decltype(A)>;
                auto& mine = rest[t];
                uint64_t serial = uint64_t(t) << 40;
                start.wait();
                for (size_t s = 0; s < steps; s++)
                {
                    const unsigned op = unsigned(r.below(10));
                    if (op < 4)
                    {
                        size_t n = r.chance(1, 20) ? r.range(1, p.maxBytes * 3) : r.chance(1, 12) ? 0 : r.range(1, p.maxBytes);
                        const uint64_t before = t_Calls;
                        unsigned char* q = nullptr;
                        bool threw = false;
                        try { q = static_cast<unsigned char*>(A.allocate(n)); }
                        catch (const std::bad_alloc&) { threw = true; thrown.fetch_add(1, std::memory_order_relaxed); }
                        if (p.gated && !threw)
                        {
                            if (t_Calls != before + 1) fail("lost-operation", "%s: an allocation reached the wrapped allocator %llu times", name, (unsigned long long)(t_Calls - before));
                            if (q != t_Last) fail("lost-operation", "%s: an allocation returned %p, but the wrapped allocator gave %p", name, (void*)q, t_Last);
                        }
                        if (q) { Blk b{ q, n, ++serial }; fill(b); mine.push_back(b); }
                        else if (!threw)
                        {
                            refused.fetch_add(1, std::memory_order_relaxed);
                            if (p.unlimited && n > 0) fail("refused", "%s: an allocation of %zu bytes was refused", name, n);
                        }
                    }
                    else if (op < 7)
                    {
                        if (mine.empty()) continue;
                        const size_t i = r.chance(1, 2) ? mine.size() - 1 : r.below(mine.size());
                        Blk b = mine[i];
                        mine[i] = mine.back();
                        mine.pop_back();
                        verify(b, name);
                        const uint64_t before = t_Calls;
                        A.deallocate(b.p, b.n);
                        if (p.gated && t_Calls != before + 1) fail("lost-operation", "%s: a return reached the wrapped allocator %llu times", name, (unsigned long long)(t_Calls - before));
                    }
                    else if (op == 7)
                    {
                        if constexpr (offers_owns<Alloc>::value)
                            if (size_t i = mine.empty() ? 0 : r.below(mine.size()); !mine.empty() && mine[i].n > 0 && !static_cast<const Alloc&>(A).owns(mine[i].p)) fail("not-owned", "%s: a thread's block is not owned", name);
                        if constexpr (offers_max<Alloc>::value)
                            if (static_cast<const Alloc&>(A).max_size() == 0) fail("no-max", "%s: the maximum size is 0", name);
                    }
                    else if (op == 8)
                    {
                        // Both directions at once must not lock each other out
                        const bool eq = r.chance(1, 2) ? (A == other) : (other == A);
                        const bool ne = r.chance(1, 2) ? (A != other) : (other != A);
                        const bool se = A == A, sn = A != A;
                        if (!se || sn) fail("comparison", "%s: not equal to itself", name);
                        if (p.stable && eq == ne) fail("comparison", "%s: both equal and unequal, or neither", name);
                    }
                    else if (pass)
                    {
                        std::lock_guard<std::mutex> l(boxLock);
                        if (r.chance(1, 2)) { if (!mine.empty()) { box.push_back(mine.back()); mine.pop_back(); } }
                        else if (!box.empty()) { mine.push_back(box.back()); box.pop_back(); }
                    }
                    order[g_Order.fetch_add(1, std::memory_order_relaxed)] = uint8_t(t);
                }
                calls.fetch_add(t_Calls, std::memory_order_relaxed);
            };
            {
                std::vector<std::thread> ts;
                for (int t = 0; t < threads; t++) ts.emplace_back(body, t);
                for (auto& t : ts) t.join();
            }
            g_Throw = 0;
            refusals = refused;
            // What is outstanding does not overlap, and is intact
            auto a = world->handle();
            std::vector<Blk> all = box;
            for (auto& v : rest) all.insert(all.end(), v.begin(), v.end());
            std::map<uintptr_t, size_t> spans;
            for (auto& b : all)
            {
                verify(b, name);
                if (b.n == 0) continue; // nothing which could be shared
                auto it = spans.lower_bound(reinterpret_cast<uintptr_t>(b.p));
                const bool bad = (it != spans.end() && it->first < reinterpret_cast<uintptr_t>(b.p) + b.n) ||
                                 (it != spans.begin() && std::prev(it)->first + std::prev(it)->second > reinterpret_cast<uintptr_t>(b.p));
                VF_CHECK(!bad, "block-shared", "%s: two threads hold overlapping blocks", name);
                spans[reinterpret_cast<uintptr_t>(b.p)] = b.n;
            }
            for (size_t i = all.size(); i-- > 0;) a->deallocate(all[i].p, all[i].n);
            if (p.capacity)
            {
                void* q = a->allocate(p.capacity);
                VF_CHECK(q, "capacity-lost", "%s: everything was returned, but %zu bytes are not available again", name, p.capacity);
                a->deallocate(q, p.capacity);
            }
            uint64_t h = hash_str(name), switches = 0;
            const size_t n = g_Order.load();
            for (size_t i = 0; i < n; i++) { h = mix(h ^ order[i]); switches += i && order[i] != order[i - 1]; }
            sig(h);
            stat("thread_operations", n);
            stat("switches_between_threads", switches);
            stat("thrown", thrown);
            stat("refusals", refusals);
            stat("outstanding_after_joining", all.size());
            if (p.gated) stat("monitored_operations", calls);
            sample(fmt("%s: %d threads x %zu operations, %zu switches between threads, %zu blocks left", name, threads, steps, size_t(switches), all.size()));
        }
        VF_CHECK(g_Heap.load() == heap0, "memory-lost", "%s: %lld blocks were never returned to the source, or too many", name, (long long)(g_Heap.load() - heap0));
    }

    // All threads use one object
    template<typename A>
    struct One
    {
        std::unique_ptr<A> first{ new A }, second{ new A };
        A* handle() { return first.get(); }
    };
    // Each thread has its own counted handle
    template<typename A>
    struct Counted
    {
        A first;
        std::unique_ptr<A> second{ new A };
        std::unique_ptr<A> handle() { return std::unique_ptr<A>(new A(static_cast<const A&>(first))); }
    };
    template<typename A>
    struct Ref
    {
        A base, base2;
        ktl::reference<A> first{ base };
        std::unique_ptr<ktl::reference<A>> second{ new ktl::reference<A>(base2) };
        std::unique_ptr<ktl::reference<A>> handle() { return std::unique_ptr<ktl::reference<A>>(new ktl::reference<A>(first)); }
    };
    // Each thread has a stateless handle to what is global
    template<typename A>
    struct Global
    {
        std::unique_ptr<A> second{ new A };
        std::unique_ptr<A> handle() { return std::unique_ptr<A>(new A); }
    };
    // Reports what is not balanced when it is destroyed
    template<typename A>
    struct Reporting
    {
        std::ostringstream out;
        std::unique_ptr<A> first{ new A(out) }, second{ new A(out) };
        A* handle() { return first.get(); }
        ~Reporting()
        {
            first.reset();
            if (!out.str().empty()) fail("lost-operation", "everything was returned, but the balance of a leak detector behind the lock says: %.120s", out.str().c_str());
        }
    };
    // Typed handles, in bytes
    template<typename T, typename S>
    struct TypedHandle
    {
        ktl::type_allocator<T, S> a;
        void* allocate(size_t n) { return a.allocate((n + sizeof(T) - 1) / sizeof(T)); }
        void deallocate(void* p, size_t n) { a.deallocate(static_cast<T*>(p), (n + sizeof(T) - 1) / sizeof(T)); }
        bool operator==(const TypedHandle& o) const { return a == o.a; }
        bool operator!=(const TypedHandle& o) const { return a != o.a; }
    };

    // Threads with containers of their own on one allocator; the containers are handed from thread to thread
    template<typename S>
    struct Box
    {
        template<typename T> using on = ktl::type_allocator<T, S>;
        std::vector<int, on<int>> v;
        std::list<int, on<int>> l;
        std::map<int, int, std::less<int>, on<std::pair<const int, int>>> m;
        ktl::trivial_vector<int, on<int>> t;
        ktl::trivial_array<int, on<int>> a;
        ktl::binary_heap<int, std::less<int>, on<int>> h;
        std::vector<int> tv, tl, tt, ta;
        std::map<int, int> tm;
        std::multiset<int> th;
        explicit Box(const S& s) : v(on<int>(s)), l(on<int>(s)), m(on<std::pair<const int, int>>(s)), t(on<int>(s)), a(0, on<int>(s)), h(on<int>(s)) {}
        void step(Rng& r)
        {
            const int x = int(r.below(1000));
            switch (r.below(9))
            {
            case 0: v.push_back(x); tv.push_back(x); break;
            case 1: l.push_back(x); tl.push_back(x); break;
            case 2: if (!tl.empty()) { l.pop_front(); tl.erase(tl.begin()); } break;
            case 3: m[x % 40] = x; tm[x % 40] = x; break;
            case 4: m.erase(x % 40); tm.erase(x % 40); break;
            case 5: t.push_back(x); tt.push_back(x); break;
            case 6: { const size_t n = r.below(30); for (size_t i = ta.size(); i > n; i--) ta.pop_back(); const size_t had = ta.size(); a.resize(n); ta.resize(n, x); for (size_t i = had; i < n; i++) a[i] = x; break; }
            case 7: h.insert(x); th.insert(x); break;
            default: if (!th.empty()) { if (h.pop() != *th.begin()) fail("container", "a heap on a shared allocator gave a wrong element"); th.erase(th.begin()); } break;
            }
        }
        bool good() const
        {
            return std::equal(v.begin(), v.end(), tv.begin(), tv.end()) && std::equal(l.begin(), l.end(), tl.begin(), tl.end()) && std::equal(m.begin(), m.end(), tm.begin(), tm.end())
                && std::equal(t.begin(), t.end(), tt.begin(), tt.end()) && std::equal(a.begin(), a.end(), ta.begin(), ta.end()) && h.size() == th.size();
        }
    };
    template<typename S>
    void containers_on(Rng& rng, const char* name)
    {
        detail("%s", name);
        const int threads = int(rng.range(2, 5));
        const size_t steps = rng.range(20, 120);
        const uint64_t seed = rng.next(), heap0 = g_Heap.load();
        {
            std::vector<std::unique_ptr<Box<S>>> pool;
            std::mutex lock;
            std::unique_ptr<S> root(new S);
            Barrier start(threads);
            std::atomic<uint64_t> passed{ 0 }, calls{ 0 };
            auto body = [&](int t) {
                Rng r(mix(seed + uint64_t(t)));
                std::unique_ptr<Box<S>> mine;
                {
                    S s(static_cast<const S&>(*root));
                    start.wait();
                    mine.reset(new Box<S>(s));
                }
                const uint64_t before = t_Calls;
                for (size_t k = 0; k < steps; k++)
                {
                    mine->step(r);
                    if (r.chance(1, 12))
                    {
                        if (!mine->good()) fail("container", "%s: a container of one thread holds wrong elements", name);
                        // Give it away, go on with another one, or with a copy
                        std::lock_guard<std::mutex> l(lock);
                        if (pool.size() < 4) { pool.push_back(std::unique_ptr<Box<S>>(new Box<S>(*mine))); mine.swap(pool.back()); }
                        else mine.swap(pool[r.below(pool.size())]);
                        passed.fetch_add(1, std::memory_order_relaxed);
                    }
                }
                if (!mine->good()) fail("container", "%s: a container of one thread holds wrong elements", name);
                calls.fetch_add(t_Calls - before, std::memory_order_relaxed);
            };
            {
                std::vector<std::thread> ts;
                for (int t = 0; t < threads; t++) ts.emplace_back(body, t);
                if (rng.chance(1, 2)) { while (start.phase.load() == 0) sched_yield(); S last(std::move(*root)); root.reset(); }
                for (auto& t : ts) t.join();
            }
            root.reset();
            for (auto& b : pool) if (!b->good()) fail("container", "%s: a container which was handed on holds wrong elements", name);
            stat("containers_passed_on", passed);
            stat("monitored_operations", calls);
            sig(mix(hash_str(name) ^ seed));
        }
        VF_CHECK(g_Heap.load() == heap0, "memory-lost", "%s: %lld blocks were never returned to the source, or too many", name, (long long)(g_Heap.load() - heap0));
    }

    void run_use(uint64_t idx, Rng& rng)
    {
        using namespace ktl;
        auto one = [](auto tag) { using A = typename decltype(tag)::type; return [] { return std::make_unique<One<A>>(); }; };
        auto counted = [](auto tag) { using A = typename decltype(tag)::type; return [] { return std::make_unique<Counted<A>>(); }; };
        auto ref = [](auto tag) { using A = typename decltype(tag)::type; return [] { return std::make_unique<Ref<A>>(); }; };
        Params p;
        switch (idx % 20)
        {
        case 0: p.unlimited = false; return threads_on(rng, "threaded<gate<counting>>", p, one(std::common_type<threaded<gate<counting<2000>>>>()));
        case 1: p.capacity = 2048; return threads_on(rng, "threaded<gate<linear>>", p, one(std::common_type<threaded<gate<linear_allocator<2048>>>>()));
        case 2: p.stable = false; return threads_on(rng, "threaded<gate<freelist<0,96>>>", p, one(std::common_type<threaded<gate<freelist<0, 96, source>>>>()));
        case 3: p.stable = false; return threads_on(rng, "threaded<gate<cascading<linear>>>", p, one(std::common_type<threaded<gate<cascading<linear_allocator<512>>>>>()));
        case 4: p.unlimited = true; return threads_on(rng, "threaded<gate<fallback<linear,source>>>", p, one(std::common_type<threaded<gate<fallback<linear_allocator<512>, source>>>>()));
        case 5: p.unlimited = true; p.stable = false; return threads_on(rng, "threaded<gate<segragator>>", p, one(std::common_type<threaded<gate<segragator<64, freelist<0, 64, source>, source>>>>()));
        case 6: p.unlimited = true; return threads_on(rng, "atomic_shared<threaded<gate<source>>>", p, counted(std::common_type<atomic_shared<threaded<gate<source>>>>()));
        case 7: p.capacity = 4096; return threads_on(rng, "atomic_shared<threaded<gate<linear>>>", p, counted(std::common_type<atomic_shared<threaded<gate<linear_allocator<4096>>>>>()));
        case 8: p.gated = false; return threads_on(rng, "threaded<counting>", p, one(std::common_type<threaded<counting<3000>>>()));
        case 9: p.gated = false; p.capacity = 1024; return threads_on(rng, "threaded<linear>", p, one(std::common_type<threaded<linear_allocator<1024>>>()));
        case 10: p.gated = false; p.stable = false; return threads_on(rng, "threaded<cascading<linear>>", p, one(std::common_type<threaded<cascading<linear_allocator<400>>>>()));
        case 11: p.gated = false; p.stable = false; return threads_on(rng, "atomic_shared<threaded<freelist>>", p, counted(std::common_type<atomic_shared<threaded<freelist<16, 96, source>>>>()));
        case 12: return threads_on(rng, "reference<threaded<gate<counting>>>", p, ref(std::common_type<threaded<gate<counting<2500>>>>()));
        case 13: p.unlimited = true; return threads_on(rng, "type<8,atomic_shared<threaded<gate>>>", p, counted(std::common_type<TypedHandle<double, atomic_shared<threaded<gate<source>>>>>()));
        case 14: return threads_on(rng, "global<threaded<gate<counting>>>", p, [] { return std::make_unique<Global<global<threaded<gate<counting<2500>>>>>>(); });
        case 15: p.unlimited = true; return threads_on(rng, "type<8,global<threaded<gate>>>", p, [] { return std::make_unique<Global<TypedHandle<double, global<threaded<gate<source>>>>>>(); });
        case 16: p.gated = false; p.unlimited = true; return threads_on(rng, "threaded<overflow<source>>", p, [] { return std::make_unique<Reporting<threaded<overflow<source, std::ostringstream>>>>(); });
        case 17: p.gated = false; return threads_on(rng, "threaded<overflow<fallback<linear,freelist>>>", p, [] { return std::make_unique<Reporting<threaded<overflow<fallback<linear_allocator<1500>, freelist<128, 256, source>>, std::ostringstream>>>>(); });
        case 18: return containers_on<atomic_shared<threaded<gate<source>>>>(rng, "containers on atomic_shared<threaded<gate<source>>>");
        case 19: return containers_on<atomic_shared<threaded<gate<segragator<64, freelist<0, 64, source>, fallback<cascading<linear_allocator<512>>, source>>>>>>(rng, "containers on atomic_shared<threaded<gate<segragator>>>");
        }
    }

    // ---------------------------------------------------------------------------------------- constructing and destroying
    // Deterministic: one thread is inside the wrapped allocator and waits, another one comes
    struct meeting
    {
        std::atomic<int> inside{ 0 }, met{ 0 };
    };
    meeting* g_Meeting = nullptr;
    struct host
    {
        void enter() const
        {
            meeting& m = *g_Meeting;
            if (m.inside.fetch_add(1) + 1 > 1) m.met = 1;
            for (int i = 0; i < 100 && !m.met; i++) std::this_thread::sleep_for(std::chrono::milliseconds(5));
            m.inside.fetch_sub(1);
        }
        void* allocate(size_t n) { enter(); return ::operator new(n, std::nothrow); }
        void deallocate(void* p, size_t) { enter(); ::operator delete(p); }
        template<typename T, typename... Args> void construct(T* p, Args&&... a) { enter(); ::new (static_cast<void*>(p)) T(std::forward<Args>(a)...); }
        template<typename T> void destroy(T* p) { enter(); p->~T(); }
        bool operator==(const host&) const { return true; }
        bool operator!=(const host&) const { return false; }
    };

    template<typename F, typename G>
    bool meet(F f, G g)
    {
        meeting m;
        g_Meeting = &m;
        std::thread a(f), b(g);
        a.join();
        b.join();
        return m.met;
    }

    void run_objects(uint64_t idx, Rng& rng)
    {
        auto t = std::make_unique<ktl::threaded<host>>();
        meeting none;
        alignas(int) unsigned char m1[sizeof(int)], m2[sizeof(int)];
        int *p = reinterpret_cast<int*>(m1), *q = reinterpret_cast<int*>(m2);
        const unsigned kind = unsigned(idx % 4);
        static const char* names[] = { "two constructions", "two destructions", "a construction and an allocation", "two allocations" };
        static const char* keys[] = { "construct-not-serialized", "destroy-not-serialized", "construct-with-allocate-not-serialized", "allocate-not-serialized" };
        detail("%s", names[kind]);
        bool met = false;
        auto give = [&] { void* x = t->allocate(8); if (x) t->deallocate(x, 8); };
        switch (kind)
        {
        case 0: met = meet([&] { t->construct(p, 1); }, [&] { t->construct(q, 2); }); break;
        case 1: new (p) int(1); new (q) int(2); met = meet([&] { t->destroy(p); }, [&] { t->destroy(q); }); break;
        case 2: met = meet([&] { t->construct(p, 1); }, [&] { void* x = t->allocate(8); ::operator delete(x); }); break;
        case 3: met = meet([&] { void* x = t->allocate(8); ::operator delete(x); }, [&] { void* x = t->allocate(8); ::operator delete(x); }); break;
        }
        (void)give;
        (void)rng;
        sig(hash_str(names[kind]) ^ idx);
        stat("meetings_arranged");
        VF_CHECK(!met, keys[kind], "%s by different threads were in the wrapped allocator at the same time", names[kind]);
    }

    bool g_Objects = false;
    void run_case(uint64_t idx, Rng& rng) { g_Objects ? run_objects(idx, rng) : run_use(idx, rng); }
}

int main(int argc, char** argv)
{
    const char* m = getenv("VF_MODE");
    g_Objects = m && !strcmp(m, "objects");
    return run_main(argc, argv, "c13", run_case);
}
