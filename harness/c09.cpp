// C09: cascading over recording sources: when instances are opened, used and dropped.
#include "leaf.h"
#include "memhook.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <algorithm>
#include <functional>
#include <memory>

using namespace vf;
using leafs::Event;
using leafs::Op;

namespace
{
    struct CA
    {
        virtual ~CA() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual size_t unit() { return 1; }
        virtual bool move_from(CA*) { return false; }
        virtual std::unique_ptr<CA> move_out() { return nullptr; }
        virtual bool owns(void*) { return true; }
    };
    template<typename A, bool Moves>
    struct Raw : CA
    {
        A a;
        Raw() {}
        explicit Raw(A&& o) : a(std::move(o)) {}
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(p, n); }
        bool owns(void* p) override { return a.owns(p); }
        bool move_from(CA* o) override
        {
            if constexpr (Moves) { a = std::move(static_cast<Raw*>(o)->a); return true; }
            else return false;
        }
        std::unique_ptr<CA> move_out() override
        {
            if constexpr (Moves) return std::unique_ptr<CA>(new Raw(std::move(a)));
            else return nullptr;
        }
    };
    template<typename A, typename T>
    struct Typed : CA
    {
        ktl::type_allocator<T, ktl::shared<A>> a;
        void* allocate(size_t n) override { return a.allocate(n / sizeof(T)); }
        void deallocate(void* p, size_t n) override { a.deallocate(static_cast<T*>(p), n / sizeof(T)); }
        size_t unit() override { return sizeof(T); }
        bool owns(void* p) override { return a.owns(static_cast<T*>(p)); }
    };

    struct Entry { std::string name; bool moves, max; std::function<std::unique_ptr<CA>()> make; };
    std::vector<Entry>& entries() { static auto* e = new std::vector<Entry>; return *e; }

    void build()
    {
        using LO = leafs::leaf<0, leafs::OWNS>;
        using LM = leafs::leaf<0, leafs::OWNS | leafs::MAXSZ>;
        using LC = leafs::leaf<0, leafs::OWNS | leafs::MAXSZ | leafs::CTOR>;
        auto add = [](const char* n, bool moves, bool max, auto tag) {
            using S = typename decltype(tag)::type;
            entries().push_back({ n, moves, max, [] { return std::unique_ptr<CA>(new S); } });
        };
        using ktl::cascading;
        add("cascading<leaf>", true, false, std::common_type<Raw<cascading<LO>, true>>());
        add("cascading<leaf max>", true, true, std::common_type<Raw<cascading<LM>, true>>());
        add("cascading<leaf max ctor>", true, true, std::common_type<Raw<cascading<LC>, true>>());
        add("threaded<cascading<leaf>>", false, false, std::common_type<Raw<ktl::threaded<cascading<LO>>, false>>());
        add("shared<cascading<leaf max>>", false, true, std::common_type<Raw<ktl::shared<cascading<LM>>, false>>());
        add("type<2B,shared<cascading<leaf>>>", false, false, std::common_type<Typed<cascading<LO>, uint16_t>>());
        add("type<8B,shared<cascading<leaf max>>>", false, true, std::common_type<Typed<cascading<LM>, uint64_t>>());
    }

    struct Inst { int id; uint64_t out; bool everUsed; };
    struct Held { void* p; size_t n; int inst; };

    struct Model
    {
        std::vector<Inst> insts; // oldest first
        Inst* find(int id)
        {
            for (Inst& i : insts)
                if (i.id == id) return &i;
            return nullptr;
        }
        void drop(int id)
        {
            for (size_t i = 0; i < insts.size(); i++)
                if (insts[i].id == id) { insts.erase(insts.begin() + ptrdiff_t(i)); return; }
        }
    };

    void run_case(uint64_t idx, Rng& rng)
    {
        if (entries().empty()) build();
        const Entry& e = entries()[idx % entries().size()];
        detail("%s", e.name.c_str());
        stat(("cases:" + e.name).c_str());
        leafs::World& w = leafs::world();
        w.reset();
        w.failSeed = rng.next();
        auto& cfg = w.cfg[0];
        cfg.cap = rng.range(1, rng.chance(1, 2) ? 60 : 2000);
        const bool mass = rng.chance(1, 400); // very many blocks in one instance
        if (mass) cfg.cap = 1 << 20;
        else if (rng.chance(1, 3)) cfg.maxSingle = rng.range(0, cfg.cap);
        const bool flaky = !mass && rng.chance(1, 4);
        if (flaky) cfg.failNum = uint32_t(rng.below(30000));
        const size_t limit = cfg.maxSingle < cfg.cap ? cfg.maxSingle : cfg.cap;
        cfg.maxReport = limit;
        const bool denials = !mass && rng.chance(1, 4);
        auto a = e.make();
        if (denials)
        {
            const uint32_t often = uint32_t(rng.below(30000));
            memhook::deny_random(often, rng.next());
        }
        w.logging = true;
        const size_t u = a->unit();
        Model m;
        std::vector<Held> held;
        std::map<const void*, int> where;
        uint64_t trace = hash_str(e.name.c_str()), served = 0;
        unsigned bias = 60;
        const size_t ops = mass ? 70300 : rng.chance(1, 12) ? rng.range(500, 1500) : rng.range(10, 250);
        auto clean = [&] { VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s", w.error.c_str()); };
        auto give_back = [&](size_t k) {
            Held h = held[k];
            held[k] = held.back();
            held.pop_back();
            w.log.clear();
            a->deallocate(h.p, h.n);
            clean();
            const bool newest = m.insts.back().id == h.inst;
            Inst* in = m.find(h.inst);
            uint64_t frees = 0, drops = 0;
            for (const Event& ev : w.log)
            {
                if (ev.op == Op::Free)
                {
                    frees++;
                    VF_CHECK(ev.inst == h.inst && ev.p == h.p && ev.n == h.n, "wrong-instance", "a block of instance %d was returned to instance %d", h.inst, ev.inst);
                    VF_CHECK(!drops, "dropped-before-return", "an instance was dropped before its block was returned");
                }
                else if (ev.op == Op::Drop)
                {
                    drops++;
                    VF_CHECK(ev.inst == h.inst, "dropped-other-instance", "instance %d was dropped when a block of instance %d was returned", ev.inst, h.inst);
                    VF_CHECK(in->out == 1, "dropped-in-use", "instance %d was dropped with %llu blocks outstanding", ev.inst, (unsigned long long)(in->out - 1));
                    VF_CHECK(!newest, "dropped-newest", "the newest instance was dropped although it is the one in use");
                }
                else fail("unexpected-source-call", "returning a block led to operation %d at instance %d", int(ev.op), ev.inst);
            }
            VF_CHECK(frees == 1, "not-returned", "a returned block went back to its instance %llu times", (unsigned long long)frees);
            in->out--;
            if (in->out == 0 && !newest)
            {
                VF_CHECK(drops == 1, "empty-instance-kept", "instance %d has no blocks left, is not the newest, and was not dropped", h.inst);
                m.drop(h.inst);
                stat("dropped_when_empty");
            }
            stat("returns");
        };
        for (size_t i = 0; i < ops; i++)
        {
            if (i % 32 == 0) bias = unsigned(rng.range(5, ops > 400 ? 100 : 95));
            const bool pile = mass && i < 70000;
            if (pile) bias = 100;
            if (e.moves && rng.chance(1, pile ? 30000 : 30))
            {
                w.log.clear();
                if (rng.chance(1, 2))
                {
                    a = a->move_out();
                    VF_CHECK(w.log.empty(), "move-touches-instances", "moving touched the instances");
                }
                else
                {
                    auto b = e.make();
                    if (void* p = b->allocate(limit / u * u)) b->deallocate(p, limit / u * u);
                    int alive = 0;
                    for (const Event& ev : w.log) alive += ev.op == Op::Create ? 1 : ev.op == Op::Drop ? -1 : 0;
                    w.log.clear();
                    b->move_from(a.get());
                    clean();
                    for (const Event& ev : w.log)
                    {
                        VF_CHECK(ev.op == Op::Drop && !m.find(ev.inst), "move-touches-instances", "moving over another did operation %d at instance %d", int(ev.op), ev.inst);
                        alive--;
                    }
                    VF_CHECK(alive == 0, "instances-remain", "%d instances of the target remain after moving over it", alive);
                    w.log.clear();
                    a = std::move(b);
                    VF_CHECK(w.log.empty(), "moved-from-touches-instances", "destroying a moved-from one touched instances");
                }
                stat("moves");
                continue;
            }
            if (held.empty() || rng.below(100) < bias)
            {
                size_t n;
                switch (rng.below(6))
                {
                case 0: n = limit; break;
                case 1: n = limit + 1; break;
                case 2: n = rng.chance(1, 8) ? SIZE_MAX - rng.below(20) : limit + rng.below(100); break;
                case 3: n = limit / 2 + rng.below(3); break;
                default: n = rng.below(limit + 1); break;
                }
                if (pile) n = u;
                n = n / u * u;
                w.log.clear();
                const uint64_t denied0 = memhook::get().denied;
                void* p = a->allocate(n);
                clean();
                const bool deniedNow = memhook::get().denied != denied0;
                stat("requests");
                std::vector<int> created;
                int servedBy = -1;
                bool newestRefused = m.insts.empty(), asked = false;
                const int newest = m.insts.empty() ? -1 : m.insts.back().id;
                bool freshRefused = false;
                for (const Event& ev : w.log)
                {
                    if (ev.op == Op::Create)
                    {
                        VF_CHECK(newestRefused, "opened-too-early", "another instance was opened before the newest refused %zu bytes", n);
                        created.push_back(ev.inst);
                    }
                    else if (ev.op == Op::Alloc)
                    {
                        VF_CHECK(ev.n == n, "wrong-size", "an instance was asked for %zu bytes instead of %zu", ev.n, n);
                        const bool isCreated = std::find(created.begin(), created.end(), ev.inst) != created.end();
                        VF_CHECK(ev.inst == newest || isCreated, "not-the-newest", "%zu bytes were requested from instance %d, but the newest is %d", n, ev.inst, newest);
                        VF_CHECK(servedBy < 0, "asked-after-served", "an instance was asked after %zu bytes were served", n);
                        asked = true;
                        if (ev.p) { servedBy = ev.inst; VF_CHECK(ev.p == p, "wrong-block", "the block of an instance was not handed out"); }
                        else if (ev.inst == newest || !m.insts.size()) { newestRefused = true; freshRefused |= isCreated; }
                        else freshRefused = true;
                    }
                    else if (ev.op == Op::Drop)
                    {
                        auto it = std::find(created.begin(), created.end(), ev.inst);
                        VF_CHECK(ev.inst != servedBy, "dropped-in-use", "the instance which served a request was dropped");
                        if (it != created.end())
                        {
                            created.erase(it);
                            stat("trial_instances_dropped");
                        }
                        else
                        {
                            // The empty newest one, when another becomes the newest
                            VF_CHECK(ev.inst == newest && servedBy >= 0 && m.insts.back().out == 0, "dropped-by-request", "instance %d was dropped by a request", ev.inst);
                            m.drop(ev.inst);
                            stat("dropped_when_replaced");
                        }
                    }
                    else fail("unexpected-source-call", "a request led to operation %d", int(ev.op));
                }
                VF_CHECK(!p || servedBy >= 0, "wrong-block", "a block came from no instance");
                VF_CHECK(p || servedBy < 0, "lost-block", "the block of instance %d was lost", servedBy);
                (void)asked;
                // Which of the created instances stay
                if (newest >= 0)
                    VF_CHECK(created.size() == (servedBy >= 0 && servedBy != newest ? 1u : 0u), "useless-instance-kept", "%zu instances were opened and kept by a request of %zu bytes that was %s", created.size(), n, p ? "served" : "refused");
                else
                    VF_CHECK(created.size() <= 1, "useless-instance-kept", "%zu instances were opened and kept by the first request", created.size());
                if (newest >= 0 && !created.empty())
                    VF_CHECK(m.insts.empty() || m.insts.back().out != 0, "empty-instance-kept", "instance %d has no blocks, is no longer the newest, and was not dropped", newest);
                for (int c : created) m.insts.push_back({ c, 0, false });
                if (!flaky && !deniedNow)
                {
                    VF_CHECK(p || n > limit, "refused-although-fresh-can-serve", "%zu bytes were refused, but every fresh instance serves up to %zu", n, limit);
                    VF_CHECK(!p || n <= limit, "served-beyond-limit", "%zu bytes were served, but no instance serves more than %zu", n, limit);
                }
                else if (!deniedNow && !p && n <= limit)
                    VF_CHECK(freshRefused, "refused-without-trying", "%zu bytes were refused without asking a fresh instance", n);
                trace = mix(trace ^ n) + uint64_t(servedBy + 1);
                if (p)
                {
                    VF_CHECK(servedBy == m.insts.back().id, "not-the-newest", "the block did not come from the newest instance");
                    m.insts.back().out++;
                    VF_CHECK(a->owns(p), "not-owned", "a fresh block is not owned");
                    std::memset(p, int(i), n);
                    held.push_back({ p, n, servedBy });
                    served++;
                    stat("served");
                    if (!created.empty()) stat("served_by_another_instance");
                }
                else stat("refused");
                stat_max("max:most_instances", m.insts.size());
            }
            else
            {
                const size_t k = rng.chance(1, 3) ? held.size() - 1 : rng.below(held.size());
                trace = mix(trace ^ k) + 99;
                give_back(k);
            }
            stat_max("max:most_blocks_in_an_instance", m.insts.empty() ? 0 : m.insts.back().out);
            if (m.insts.size() > 450 && held.size() > 400)
                while (held.size() > 200) give_back(rng.below(held.size()));
        }
        static const bool tidy = getenv("VF_MODE") && !strcmp(getenv("VF_MODE"), "tidy");
        const bool abandon = rng.chance(1, 6) && !tidy;
        if (!abandon)
            while (!held.empty()) give_back(rng.below(held.size()));
        w.log.clear();
        a.reset();
        std::set<int> gone;
        for (const Event& ev : w.log)
            VF_CHECK(ev.op == Op::Drop && m.find(ev.inst) && gone.insert(ev.inst).second, "unexpected-source-call", "destruction did operation %d at instance %d", int(ev.op), ev.inst);
        VF_CHECK(gone.size() == m.insts.size() && w.instances == 0, "instances-remain", "%zu instances remain after destruction", m.insts.size() - gone.size());
        memhook::deny_random(0, 0);
        VF_CHECK(memhook::get().live_blocks == 0, "heap-blocks-remain", "%zu heap blocks remain after destruction", size_t(memhook::get().live_blocks));
        if (served) sig(trace);
        digest(trace);
        sample(fmt("%s: capacity %zu, %zu operations, %llu served, up to %zu instances at the end", e.name.c_str(), limit, ops, (unsigned long long)served, m.insts.size()));
        w.logging = false;
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c09", run_case); }
