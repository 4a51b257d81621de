// C12: life of the state behind reference-counted handles. VF_MODE: seq (one thread, exact model) or conc (many threads).
#include "leaf.h"
#include "memhook.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <sched.h>
#include <thread>

using namespace vf;

namespace
{
    // An atomic counter which is slow: other threads run between the steps of whatever is done with it
    inline void dawdle() noexcept
    {
        static std::atomic<uint64_t> state{ 1 };
        const uint64_t s = mix(state.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed));
        if ((s & 7) == 0) sched_yield();
        else
            for (unsigned i = 0; i < (s >> 8 & 127); i++) asm volatile("" ::: "memory");
    }
    template<typename T>
    struct slow_atomic : std::atomic<T>
    {
        using B = std::atomic<T>;
        slow_atomic() noexcept = default;
        slow_atomic(T v) noexcept : B(v) {}
        T fetch_add(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { dawdle(); T r = B::fetch_add(v, o); dawdle(); return r; }
        T fetch_sub(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { dawdle(); T r = B::fetch_sub(v, o); dawdle(); return r; }
        T load(std::memory_order o = std::memory_order_seq_cst) const noexcept { dawdle(); T r = B::load(o); dawdle(); return r; }
        void store(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { dawdle(); B::store(v, o); dawdle(); }
        T exchange(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { dawdle(); T r = B::exchange(v, o); dawdle(); return r; }
        T operator++() noexcept { return fetch_add(1) + 1; }
        T operator++(int) noexcept { return fetch_add(1); }
        T operator--() noexcept { return fetch_sub(1) - 1; }
        T operator--(int) noexcept { return fetch_sub(1); }
        operator T() const noexcept { return load(); }
    };

    // ------------------------------------------------------------------------------------------------ sequential model
    // A narrow size type must not narrow the number of handles
    struct narrow : leafs::leaf<2, 0>
    {
        typedef uint8_t size_type;
        using leafs::leaf<2, 0>::leaf;
        bool operator==(const narrow& o) const noexcept { return leafs::leaf<2, 0>::operator==(o); }
        bool operator!=(const narrow& o) const noexcept { return leafs::leaf<2, 0>::operator!=(o); }
    };

    // A handle of one kind, typed or not. Moving a typed handle is documented to copy.
    template<typename H>
    struct Ops
    {
        static constexpr bool typed = false;
        static const leafs::State* state(H& h) { return h.get_allocator().state(); }
        static int mark(H& h) { return h.get_allocator().mark(); }
        static void* alloc(H& h, size_t n) { return h.allocate(n); }
        static void free(H& h, void* p, size_t n) { h.deallocate(p, n); }
        static size_t unit() { return 1; }
    };
    template<typename T, typename S>
    struct Ops<ktl::type_allocator<T, S>>
    {
        using H = ktl::type_allocator<T, S>;
        static constexpr bool typed = true;
        static const leafs::State* state(H& h) { return h.get_allocator().get_allocator().state(); }
        static int mark(H& h) { return h.get_allocator().get_allocator().mark(); }
        static void* alloc(H& h, size_t n) { return h.allocate(n / sizeof(T)); }
        static void free(H& h, void* p, size_t n) { h.deallocate(static_cast<T*>(p), n / sizeof(T)); }
        static size_t unit() { return sizeof(T); }
    };

    struct Blk { void* p; size_t n; int inst; unsigned char fill; };

    template<typename H>
    void sequential(Rng& rng, const char* name)
    {
        using O = Ops<H>;
        auto& w = leafs::world();
        w.reset();
        const uint64_t heap0 = memhook::get().live_blocks, frees0 = memhook::get().bad_frees;
        memhook::deny_at(-1);
        uint64_t trace = hash_str(name);
        constexpr int SLOTS = 12;
        {
            std::optional<H> slot[SLOTS];
            int model[SLOTS];                 // instance, or -1: moved-from
            std::map<int, int> handles;       // instance -> handles
            std::map<int, int> marks;
            std::vector<Blk> blocks;
            uint64_t made = 0;

            auto drop_blocks = [&](int inst) { // the state goes, and with it its memory
                for (size_t i = 0; i < blocks.size();)
                    if (blocks[i].inst == inst) { blocks[i] = blocks.back(); blocks.pop_back(); }
                    else i++;
            };
            auto release = [&](int inst) {
                if (inst < 0) return;
                if (--handles[inst] == 0) { handles.erase(inst); marks.erase(inst); drop_blocks(inst); stat("states_ended"); }
            };
            auto check = [&](const char* what) {
                VF_CHECK(w.instances == handles.size(), w.instances < handles.size() ? "destroyed-early" : "not-destroyed",
                    "%s: after %s there are %zu allocators, but handles to %zu", name, what, size_t(w.instances), handles.size());
                for (int i = 0; i < SLOTS; i++)
                    if (slot[i] && model[i] >= 0)
                    {
                        const leafs::State* st = O::state(*slot[i]);
                        VF_CHECK(st->inst == model[i], "wrong-state", "%s: after %s a handle to allocator %d refers to allocator %d", name, what, model[i], st->inst);
                        VF_CHECK(O::mark(*slot[i]) == marks[model[i]], "wrong-state", "%s: after %s the allocator behind a handle is not the one made with its arguments", name, what);
                    }
                VF_CHECK(memhook::get().live_blocks - heap0 == handles.size(), "shared-block-leaked", "%s: after %s %zu blocks are held for %zu allocators", name, what,
                    size_t(memhook::get().live_blocks - heap0), handles.size());
                VF_CHECK(memhook::get().bad_frees == frees0, "freed-twice", "%s: %s freed memory which was not live", name, what);
                VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s: %s", name, w.error.c_str());
                for (auto& b : blocks)
                    for (size_t k : { size_t(0), b.n / 2, b.n - 1 })
                        VF_CHECK(static_cast<unsigned char*>(b.p)[k] == b.fill, "destroyed-early", "%s: memory of a living allocator changed", name);
            };
            auto some = [&](bool live) { // a filled slot, or -1
                int c[SLOTS], n = 0;
                for (int i = 0; i < SLOTS; i++)
                    if (slot[i] && (!live || model[i] >= 0)) c[n++] = i;
                return n ? c[rng.below(n)] : -1;
            };
            auto empty = [&] {
                int c[SLOTS], n = 0;
                for (int i = 0; i < SLOTS; i++)
                    if (!slot[i]) c[n++] = i;
                return n ? c[rng.below(n)] : -1;
            };

            const size_t steps = rng.range(5, 120);
            const bool mass = rng.below(rng.chance(1, 4) ? 30 : 400) == 0;
            for (size_t s = 0; s < steps; s++)
            {
                const unsigned op = unsigned(rng.below(15));
                trace = mix(trace ^ op);
                int a = some(false), l = some(true), e = empty();
                switch (op)
                {
                case 0: case 1:
                    if (e < 0) break;
                    {
                        const int id = w.nextInst;
                        int m = 0;
                        const unsigned how = unsigned(rng.below(3));
                        if (how == 0) slot[e].emplace();
                        else if (how == 1) slot[e].emplace(m = int(rng.range(1, 500)));
                        else { int x = int(rng.below(100)), y = int(rng.below(1000)); slot[e].emplace(x, y); m = x * 1000 + y; }
                        model[e] = O::state(*slot[e])->inst;
                        VF_CHECK(model[e] >= id, "wrong-state", "%s: a new handle refers to an existing allocator", name);
                        handles[model[e]] = 1;
                        marks[model[e]] = m;
                        made++;
                        check("making one");
                    }
                    break;
                case 2: case 3: // copy
                    if (a < 0 || e < 0) break;
                    slot[e].emplace(static_cast<const H&>(*slot[a]));
                    model[e] = model[a];
                    if (model[a] >= 0) handles[model[a]]++;
                    stat("copies");
                    check("a copy");
                    break;
                case 4: // move
                    if (a < 0 || e < 0) break;
                    slot[e].emplace(std::move(*slot[a]));
                    model[e] = model[a];
                    if (O::typed) { if (model[a] >= 0) handles[model[a]]++; }
                    else model[a] = -1;
                    stat("moves");
                    check("a move");
                    break;
                case 5: case 6: // copy assignment
                {
                    const int b = some(false);
                    if (a < 0) break;
                    *slot[b] = static_cast<const H&>(*slot[a]);
                    if (model[a] >= 0) handles[model[a]]++;
                    release(model[b]);
                    model[b] = model[a];
                    stat(a == b ? "self_assignments" : "assignments");
                    if (model[a] < 0) stat("assigned_from_moved_from");
                    check(a == b ? "assigning a handle to itself" : "an assignment");
                    break;
                }
                case 7: case 8: // move assignment
                {
                    const int b = some(false);
                    if (a < 0) break;
                    *slot[b] = std::move(*slot[a]);
                    if (a != b)
                    {
                        if (O::typed) { if (model[a] >= 0) handles[model[a]]++; }
                        release(model[b]);
                        model[b] = model[a];
                        if (!O::typed) model[a] = -1;
                    }
                    stat(a == b ? "self_move_assignments" : "move_assignments");
                    check(a == b ? "moving a handle to itself" : "a move assignment");
                    break;
                }
                case 9: case 10:
                    if (a < 0) break;
                    slot[a].reset();
                    release(model[a]);
                    if (model[a] < 0) stat("moved_from_destroyed");
                    check("destroying a handle");
                    break;
                case 11: // comparing any two, moved-from ones too
                {
                    const int b = some(false);
                    if (a < 0) break;
                    const H &x = *slot[a], &y = *slot[b];
                    const bool eq = x == y, ne = x != y;
                    if (model[a] >= 0 && model[b] >= 0)
                        VF_CHECK(eq == (model[a] == model[b]) && ne == !eq, "wrong-comparison", "%s: handles to allocators %d and %d compare %s and %s", name, model[a], model[b],
                            eq ? "equal" : "not equal", ne ? "unequal" : "not unequal");
                    else stat("moved_from_compared");
                    check("a comparison");
                    break;
                }
                case 12: case 13:
                    if (l < 0) break;
                    {
                        const size_t n = O::unit() * rng.range(1, 16);
                        void* p = O::alloc(*slot[l], n);
                        if (!p) break;
                        const unsigned char f = (unsigned char)(rng.next() & 0xFF);
                        memset(p, f, n);
                        blocks.push_back({ p, n, model[l], f });
                    }
                    check("allocating");
                    break;
                case 14:
                    if (l < 0 || blocks.empty()) break;
                    for (size_t i = 0; i < blocks.size(); i++)
                        if (blocks[i].inst == model[l])
                        {
                            O::free(*slot[l], blocks[i].p, blocks[i].n);
                            blocks[i] = blocks.back();
                            blocks.pop_back();
                            break;
                        }
                    check("returning memory");
                    break;
                }
                if (mass && s == steps / 2 && l >= 0 && slot[l] && model[l] >= 0)
                {
                    // More handles than fit in any narrow counter
                    static const size_t many[] = { 255, 256, 257, 1000, 32767, 65535, 65536, 65537, 70000 };
                    const size_t n = many[rng.below(9)];
                    std::vector<H> copies(n, *slot[l]);
                    handles[model[l]] += int(n);
                    check("many copies");
                    if (rng.chance(1, 2)) std::shuffle(copies.begin(), copies.end(), std::minstd_rand(unsigned(rng.next() | 1)));
                    for (size_t i = 0; i < n; i++)
                    {
                        copies.pop_back();
                        handles[model[l]]--;
                        if ((i & (i + 1)) == 0 || n - i < 3) check("many destroyed copies");
                    }
                    stat("mass_copies", n);
                }
            }
            std::vector<int> order;
            for (int i = 0; i < SLOTS; i++) order.push_back(i);
            for (int i = SLOTS; i-- > 0;) std::swap(order[i], order[rng.below(i + 1)]);
            for (int i : order)
                if (slot[i])
                {
                    slot[i].reset();
                    release(model[i]);
                    check("destroying the rest");
                }
            stat("states", made);
        }
        VF_CHECK(w.instances == 0, "not-destroyed", "%s: %zu allocators are left without a handle", name, size_t(w.instances));
        sig(trace);
        digest(trace);
        sample(fmt("%s: %016llx", name, (unsigned long long)trace));
    }

    // ------------------------------------------------------------------------------------------------------ concurrent
    std::atomic<int64_t> g_Alive{ 0 };
    std::atomic<uint64_t> g_Made{ 0 }, g_Gone{ 0 };
    std::mutex g_OrderLock;
    std::vector<int> g_Order; // which thread destroyed, in order (only locked in destructors: rare)
    thread_local int t_Id = -1;

    // An allocator which knows whether it is alive
    template<bool Locked>
    struct Life
    {
        static constexpr uint64_t MAGIC = 0x600DA110C8ED600Dull;
        uint64_t magic = MAGIC;
        uint64_t touched = 0;
        int id = 0;
        Life() noexcept { g_Alive++; g_Made++; }
        explicit Life(int i) noexcept : id(i) { g_Alive++; g_Made++; }
        Life(const Life&) = delete;
        Life& operator=(const Life&) = delete;
        ~Life()
        {
            alive("destroyed twice");
            magic = 0xDEADDEADDEADDEADull;
            touched++;
            g_Alive--;
            g_Gone++;
            if (Locked)
            {
                std::lock_guard<std::mutex> l(g_OrderLock);
                g_Order.push_back(t_Id);
            }
        }
        void alive(const char* what) const
        {
            if (magic != MAGIC) fail("destroyed-early", "an allocator was %s when a handle was left or more than once (%llx)", what, (unsigned long long)magic);
        }
        void* allocate(size_t n) noexcept { alive("used after destruction"); return ::operator new(n, std::nothrow); }
        void deallocate(void* p, size_t) noexcept { alive("used after destruction"); ::operator delete(p); }
        bool operator==(const Life& o) const noexcept { alive("compared after destruction"); o.alive("compared after destruction"); return this == &o; }
        bool operator!=(const Life& o) const noexcept { return !(*this == o); }
        int get() const { alive("read after destruction"); return id; }
    };

    struct Barrier
    {
        std::atomic<int> waiting{ 0 };
        std::atomic<int> phase{ 0 };
        int n;
        explicit Barrier(int k) : n(k) {}
        void wait()
        {
            const int ph = phase.load();
            if (waiting.fetch_add(1) + 1 == n) { waiting = 0; phase++; }
            else
                while (phase.load() == ph) sched_yield();
        }
    };

    template<typename H> struct Unwrap { static auto& get(H& h) { return h.get_allocator(); } };
    template<typename T, typename S> struct Unwrap<ktl::type_allocator<T, S>> { static auto& get(ktl::type_allocator<T, S>& h) { return h.get_allocator().get_allocator(); } };

    template<typename H, bool Locked>
    void concurrent(Rng& rng, const char* name)
    {
        detail("%s", name);
        const int threads = int(rng.range(2, 6));
        const int states = int(rng.range(1, 4));
        const size_t steps = rng.range(10, 120);
        const unsigned style = unsigned(rng.below(3));
        g_Order.clear();
        const uint64_t made0 = g_Made, gone0 = g_Gone;
        std::vector<H> published;
        for (int i = 0; i < states; i++) published.emplace_back(i + 1);
        std::atomic<int> budget{ int(states * 4) };
        std::atomic<int> nextId{ 100 };
        std::mutex boxLock;
        std::vector<H> box;
        Barrier start(threads), last(threads);
        const uint64_t seed = rng.next();
        auto body = [&](int t) {
            t_Id = t;
            Rng r(mix(seed + uint64_t(t)));
            std::vector<H> mine;
            mine.reserve(40);
            for (auto& p : published) mine.push_back(static_cast<const H&>(p));
            std::vector<int> ids;
            for (size_t i = 0; i < mine.size(); i++) ids.push_back(int(i) + 1); // 0: moved-from
            start.wait();
            if (style != 0)
            for (size_t s = 0; s < steps; s++)
            {
                const unsigned op = unsigned(r.below(9));
                const size_t i = r.below(mine.size());
                switch (op)
                {
                case 0: // copy what everybody reads
                    if (mine.size() < 40) { const size_t k = r.below(published.size()); mine.push_back(static_cast<const H&>(published[k])); ids.push_back(int(k) + 1); }
                    break;
                case 1: // copy
                    if (mine.size() < 40 && !mine.empty()) { H h(static_cast<const H&>(mine[i])); mine.push_back(static_cast<const H&>(h)); ids.push_back(ids[i]); }
                    break;
                case 2: // destroy
                    if (!mine.empty())
                    {
                        if (i + 1 != mine.size()) { std::swap(ids[i], ids.back()); H h(std::move(mine[i])); mine[i] = std::move(mine.back()); mine.back() = std::move(h); }
                        mine.pop_back();
                        ids.pop_back();
                    }
                    break;
                case 3: // assign
                    if (!mine.empty()) { const size_t k = r.below(mine.size()); mine[i] = static_cast<const H&>(mine[k]); ids[i] = ids[k]; }
                    break;
                case 4: // use
                    if (!mine.empty() && ids[i])
                    {
                        if (Unwrap<H>::get(mine[i]).get() != ids[i]) fail("wrong-state", "%s: a handle changed its allocator", name);
                        auto* p = mine[i].allocate(8);
                        if (p) mine[i].deallocate(p, 8);
                    }
                    break;
                case 5: // compare
                    if (!mine.empty())
                    {
                        const size_t k = r.below(mine.size());
                        const bool eq = mine[i] == mine[k];
                        if (ids[i] && ids[k] && eq != (ids[i] == ids[k])) fail("wrong-comparison", "%s: handles compare wrongly", name);
                    }
                    break;
                case 6: // give to another thread
                    if (!mine.empty())
                    {
                        std::lock_guard<std::mutex> l(boxLock);
                        if (box.size() < 30 && ids[i]) box.push_back(static_cast<const H&>(mine[i]));
                    }
                    break;
                case 7: // take from another thread
                {
                    std::lock_guard<std::mutex> l(boxLock);
                    if (!box.empty() && mine.size() < 40)
                    {
                        mine.push_back(std::move(box.back()));
                        box.pop_back();
                        ids.push_back(Unwrap<H>::get(mine.back()).get());
                    }
                    break;
                }
                case 8: // a state of this thread's own
                    if (mine.size() < 40 && budget.fetch_sub(1) > 0) { const int id = nextId++; mine.emplace_back(id); ids.push_back(id); }
                    break;
                }
                if (style == 2) dawdle();
            }
            // The last handles go at the same time; who lets go last is up to the scheduler
            last.wait();
            if (t == 0) { published.clear(); }
            while (!mine.empty()) { mine.pop_back(); if (style == 1) dawdle(); }
            if (t == threads - 1) { std::lock_guard<std::mutex> l(boxLock); box.clear(); }
        };
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; t++) ts.emplace_back(body, t);
        for (auto& t : ts) t.join();
        const uint64_t made = g_Made - made0, gone = g_Gone - gone0;
        VF_CHECK(made == gone, made > gone ? "not-destroyed" : "destroyed-twice", "%s: %d threads: %llu allocators were made, %llu destroyed when no handle was left", name, threads,
            (unsigned long long)made, (unsigned long long)gone);
        stat("concurrent_rounds");
        stat("states_of_threads", made);
        uint64_t h = hash_str(name);
        h = mix(h ^ uint64_t(threads) ^ (uint64_t(states) << 8) ^ (uint64_t(steps) << 16) ^ (uint64_t(style) << 32));
        {
            std::set<int> who(g_Order.begin(), g_Order.end());
            if (who.size() > 1) stat("ended_by_different_threads");
        }
        for (int o : g_Order) h = mix(h ^ uint64_t(o + 2));
        sig(h);
        sample(fmt("%s: %d threads, %d shared states, style %u, %zu ended", name, threads, states, style, size_t(made)));
    }

    void run_seq(uint64_t idx, Rng& rng)
    {
        using L = leafs::leaf<0, leafs::OWNS | leafs::MAXSZ | leafs::CTOR>;
        using P = leafs::leaf<1, 0>;
        using ktl::shared;
        using ktl::atomic_shared;
        using ktl::type_allocator;
        switch (idx % 8)
        {
        case 0: detail("shared<leaf>"); sequential<shared<L>>(rng, "shared<leaf>"); break;
        case 1: detail("atomic_shared<leaf>"); sequential<atomic_shared<L>>(rng, "atomic_shared<leaf>"); break;
        case 2: detail("shared<plain leaf>"); sequential<shared<P>>(rng, "shared<plain leaf>"); break;
        case 3: detail("shared<leaf,slow>"); sequential<shared<L, slow_atomic>>(rng, "shared<leaf,slow>"); break;
        case 4: detail("shared<narrow>"); sequential<shared<narrow>>(rng, "shared<narrow>"); break;
        case 5: detail("atomic_shared<narrow>"); sequential<atomic_shared<narrow>>(rng, "atomic_shared<narrow>"); break;
        case 6: detail("type<8,shared<leaf>>"); sequential<type_allocator<double, shared<L>>>(rng, "type<8,shared<leaf>>"); break;
        case 7: detail("type<2,atomic_shared<leaf>>"); sequential<type_allocator<uint16_t, atomic_shared<P>>>(rng, "type<2,atomic_shared<leaf>>"); break;
        }
    }

    void run_conc(uint64_t idx, Rng& rng)
    {
        using ktl::atomic_shared;
        using ktl::shared;
        using ktl::type_allocator;
        switch (idx % 4)
        {
        case 0: concurrent<atomic_shared<Life<true>>, true>(rng, "atomic_shared"); break;
        case 1: concurrent<shared<Life<true>, slow_atomic>, true>(rng, "shared<slow>"); break;
        case 2: concurrent<atomic_shared<Life<false>>, false>(rng, "atomic_shared, unobserved"); break;
        case 3: concurrent<type_allocator<double, atomic_shared<Life<true>>>, true>(rng, "type<atomic_shared>"); break;
        }
    }

    bool g_Conc = false;
    void run_case(uint64_t idx, Rng& rng) { g_Conc ? run_conc(idx, rng) : run_seq(idx, rng); }
}

int main(int argc, char** argv)
{
    const char* m = getenv("VF_MODE");
    g_Conc = m && !strcmp(m, "conc");
    return run_main(argc, argv, "c12", run_case);
}
