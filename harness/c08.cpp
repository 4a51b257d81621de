// C08: freelist over recording sources against a model of the blocks it holds.
#include "leaf.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <functional>
#include <memory>

using namespace vf;
using leafs::Event;
using leafs::Op;

namespace
{
    struct FL
    {
        virtual ~FL() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual size_t unit() { return 1; }
        virtual int move(FL*, bool) { return 0; }   // *this takes over everything of the other; 0: not offered
        virtual std::unique_ptr<FL> move_out() { return nullptr; }
    };

    template<typename A, bool Moves>
    struct Raw : FL
    {
        A a;
        Raw() {}
        explicit Raw(A&& o) : a(std::move(o)) {}
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(p, n); }
        int move(FL* o, bool) override
        {
            if constexpr (Moves) { a = std::move(static_cast<Raw*>(o)->a); return 1; }
            else return 0;
        }
        std::unique_ptr<FL> move_out() override
        {
            if constexpr (Moves) return std::unique_ptr<FL>(new Raw(std::move(a)));
            else return nullptr;
        }
    };
    template<typename A, typename T>
    struct Typed : FL
    {
        ktl::type_allocator<T, ktl::shared<A>> a;
        void* allocate(size_t n) override { return a.allocate(n / sizeof(T)); }
        void deallocate(void* p, size_t n) override { a.deallocate(static_cast<T*>(p), n / sizeof(T)); }
        size_t unit() override { return sizeof(T); }
    };

    struct Entry { std::string name; size_t min, max, srcMax; bool moves, anyMove; std::function<std::unique_ptr<FL>()> make; };
    std::vector<Entry>& entries() { static auto* e = new std::vector<Entry>; return *e; }

    template<int N> using LB = leafs::leaf<N, 0>;
    template<int N> using LO = leafs::leaf<N, leafs::OWNS | leafs::MAXSZ | leafs::CTOR>;
    template<int N> using LS = leafs::leaf<N, leafs::SHARED>;

    template<size_t Min, size_t Max>
    void reg()
    {
        entries().push_back({ fmt("freelist<%zu,%zu>", Min, Max), Min, Max, Max, false, true, [] { return std::unique_ptr<FL>(new Raw<ktl::freelist<Min, Max, LB<0>>, true>); } });
        entries().push_back({ fmt("freelist<%zu,%zu> rich", Min, Max), Min, Max, Max, false, true, [] { return std::unique_ptr<FL>(new Raw<ktl::freelist<Min, Max, LO<0>>, true>); } });
        entries().push_back({ fmt("freelist<%zu,%zu> shared source", Min, Max), Min, Max, Max, true, true, [] { return std::unique_ptr<FL>(new Raw<ktl::freelist<Min, Max, LS<0>>, true>); } });
        entries().push_back({ fmt("freelist<%zu,%zu> threaded", Min, Max), Min, Max, Max, false, false, [] { return std::unique_ptr<FL>(new Raw<ktl::threaded<ktl::freelist<Min, Max, LB<0>>>, false>); } });
        entries().push_back({ fmt("type<2B,shared<freelist<%zu,%zu>>>", Min, Max), Min, Max, Max, false, false, [] { return std::unique_ptr<FL>(new Typed<ktl::freelist<Min, Max, LB<0>>, uint16_t>); } });
        entries().push_back({ fmt("type<8B,shared<freelist<%zu,%zu>>>", Min, Max), Min, Max, Max, false, false, [] { return std::unique_ptr<FL>(new Typed<ktl::freelist<Min, Max, LB<0>>, uint64_t>); } });
    }
    void build()
    {
        reg<0, 8>(); reg<0, 9>(); reg<0, 16>(); reg<7, 8>(); reg<8, 16>(); reg<15, 17>(); reg<16, 64>(); reg<0, 64>(); reg<63, 64>(); reg<1, 100>(); reg<0, 4096>();
        reg<255, 256>(); reg<1000, 70000>();
        reg<100, (size_t(5) << 30)>(); reg<(size_t(1) << 32), (size_t(1) << 32) + 8>(); reg<SIZE_MAX - 1, SIZE_MAX>(); reg<0, SIZE_MAX>();
    }

    struct Held { void* p; size_t n; };

    void run_case(uint64_t idx, Rng& rng)
    {
        if (entries().empty()) build();
        const Entry& e = entries()[idx % entries().size()];
        detail("%s", e.name.c_str());
        stat(("cases:" + e.name).c_str());
        leafs::World& w = leafs::world();
        w.reset();
        w.failSeed = rng.next();
        if (rng.chance(1, 2)) w.cfg[0].failNum = uint32_t(rng.below(40000));
        if (rng.chance(1, 3)) w.cfg[0].cap = rng.below(20) * e.srcMax;
        w.cfg[0].maxReport = rng.chance(1, 2) ? rng.below(2 * (e.max & 0xFFFFFF)) : SIZE_MAX;
        auto a = e.make();
        w.logging = true;
        const size_t u = a->unit();
        std::set<const void*> kept;
        std::vector<Held> held;
        uint64_t trace = hash_str(e.name.c_str()), served = 0;
        unsigned bias = 60;
        const size_t ops = rng.range(10, 300);
        auto clean = [&] { VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s", w.error.c_str()); };
        // Every block that is kept must come back to the source as a block of Max bytes
        auto expect_release = [&](const char* what) {
            clean();
            std::set<const void*> back;
            for (const Event& ev : w.log)
            {
                if (ev.op == Op::Free)
                {
                    VF_CHECK(ev.n == e.srcMax, "wrong-size-returned", "%s: a block of %zu bytes went back as %zu", what, e.srcMax, ev.n);
                    VF_CHECK(kept.count(ev.p) && back.insert(ev.p).second, "wrong-block-returned", "%s: a block which is not kept went back to the source", what);
                }
                else VF_CHECK(ev.op == Op::Create || ev.op == Op::Drop, "unexpected-source-call", "%s: the source saw operation %d", what, int(ev.op));
            }
            VF_CHECK(back.size() == kept.size(), "not-returned", "%s: %zu of %zu kept blocks went back to the source", what, back.size(), kept.size());
            stat("released", kept.size());
            stat_max("max:most_released_at_once", kept.size());
            kept.clear();
        };
        for (size_t i = 0; i < ops; i++)
        {
            if (i % 24 == 0) bias = unsigned(rng.range(5, 95));
            w.log.clear();
            if (e.anyMove && rng.chance(1, 25) && (e.moves || (kept.empty() && held.empty())))
            {
                if (rng.chance(1, 2))
                {
                    auto b = a->move_out();
                    VF_CHECK([&] { for (auto& ev : w.log) if (ev.op == Op::Free || ev.op == Op::Alloc) return false; return true; }(), "move-touches-source", "a move construction used the source");
                    a = std::move(b); // the moved-from one goes: nothing of it may go back
                    clean();
                    for (auto& ev : w.log) VF_CHECK(ev.op != Op::Free, "moved-from-returned", "a moved-from free list returned a block");
                }
                else
                {
                    // the target holds some blocks of its own
                    auto b = e.make();
                    std::vector<void*> mine;
                    std::vector<Held> got;
                    if (e.moves)
                    {
                        const size_t n = e.min + 1 + rng.below(e.max - e.min < 64 ? e.max - e.min : 64);
                        for (size_t k = rng.below(5); k-- > 0;)
                            if (void* p = b->allocate(n)) got.push_back({ p, n });
                        for (auto& h : got) b->deallocate(h.p, h.n);
                    }
                    const std::set<const void*> saved = kept;
                    kept.clear();
                    for (auto& h : got) kept.insert(h.p);
                    clean();
                    w.log.clear();
                    b->move(a.get(), true);
                    expect_release("assigning over it");
                    kept = saved;
                    w.log.clear();
                    a = std::move(b);
                    clean();
                    for (auto& ev : w.log) VF_CHECK(ev.op != Op::Free, "moved-from-returned", "a moved-from free list returned a block");
                }
                stat("moves");
                continue;
            }
            if (held.empty() || rng.below(100) < bias)
            {
                size_t n;
                switch (rng.below(5))
                {
                case 0: n = e.min + rng.below(3) - (e.min ? 1 : 0); break;
                case 1: n = e.max - 1 + rng.below(3); break;
                case 2: n = rng.chance(1, 2) ? 0 : rng.next() >> rng.below(50); break;
                default: n = e.min + 1 + rng.below(e.max - e.min < (1 << 17) ? e.max - e.min : (1 << 17)); break;
                }
                n = n / u * u;
                void* p = a->allocate(n);
                clean();
                stat("requests");
                trace = mix(trace ^ n);
                if (!(n > e.min && n <= e.max))
                {
                    VF_CHECK(!p, "served-out-of-range", "%zu bytes were served", n);
                    VF_CHECK(w.log.empty(), "unexpected-source-call", "a request of %zu bytes reached the source", n);
                    stat("out_of_range");
                    continue;
                }
                if (!kept.empty())
                {
                    VF_CHECK(w.log.empty(), "source-asked-too-early", "the source was asked while %zu blocks are kept", kept.size());
                    VF_CHECK(p, "kept-block-not-reused", "%zu bytes were refused while %zu blocks are kept", n, kept.size());
                    VF_CHECK(kept.erase(p), "not-a-kept-block", "%zu bytes were served with a block which is not kept", n);
                    stat("reused");
                }
                else
                {
                    VF_CHECK(w.log.size() == 1 && w.log[0].op == Op::Alloc, "unexpected-source-call", "a request of %zu bytes led to %zu operations at the source", n, w.log.size());
                    VF_CHECK(w.log[0].n == e.srcMax, "wrong-size-requested", "the source was asked for %zu bytes instead of %zu", w.log[0].n, e.srcMax);
                    VF_CHECK(w.log[0].p == p, "wrong-block", "the source's block was not handed out");
                    stat(p ? "fresh" : "refused");
                }
                if (p)
                {
                    std::memset(p, int(rng.next()), n < 70000 ? n : 70000);
                    held.push_back({ p, n });
                    served++;
                }
            }
            else
            {
                const size_t k = rng.chance(1, 3) ? held.size() - 1 : rng.below(held.size());
                Held h = held[k];
                held.erase(held.begin() + ptrdiff_t(k));
                a->deallocate(h.p, h.n);
                clean();
                VF_CHECK(w.log.empty(), "unexpected-source-call", "returning %zu bytes reached the source", h.n);
                kept.insert(h.p);
                stat("returns");
                stat_max("max:most_kept", kept.size());
                trace = mix(trace ^ k) + 1;
            }
        }
        const bool leave = e.moves && rng.chance(1, 4); // destroyed while the client still holds blocks
        if (!leave)
            for (auto& h : held) { a->deallocate(h.p, h.n); kept.insert(h.p); }
        w.log.clear();
        const size_t before = w.liveBlocks;
        const size_t n = kept.size();
        a.reset();
        expect_release("destruction");
        VF_CHECK(w.liveBlocks == before - n, "not-returned", "%zu blocks remain outstanding", size_t(w.liveBlocks));
        VF_CHECK(w.droppedLive == 0, "source-destroyed-first", "the source was destroyed while %zu of its blocks were outstanding", size_t(w.droppedLive));
        if (served) sig(trace);
        digest(trace);
        sample(fmt("%s: %zu operations, %llu served, %zu released at destruction", e.name.c_str(), ops, (unsigned long long)served, n));
        w.logging = false;
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c08", run_case); }
