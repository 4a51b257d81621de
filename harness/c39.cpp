// C39: see c39.h. A random history on each of the compositions, with books kept at the sources.
#include "c39.h"
#include "shadow.h"

using namespace vf;
using namespace c39;

namespace c39
{
    void register_with_0(); void register_with_1(); void register_with_2(); void register_with_3();
    void register_with_4(); void register_with_5(); void register_with_6(); void register_with_7();
}

namespace
{
    struct Blk { void* p; size_t n; long seed; };

    void fill_block(const Blk& b) { for (size_t i = 0; i < b.n; i++) static_cast<unsigned char*>(b.p)[i] = static_cast<unsigned char>(mix(uint64_t(b.seed)) >> (i % 8 * 8)); }
    bool holds(const Blk& b)
    {
        for (size_t i = 0; i < b.n; i++)
            if (static_cast<unsigned char*>(b.p)[i] != static_cast<unsigned char>(mix(uint64_t(b.seed)) >> (i % 8 * 8))) return false;
        return true;
    }

    void books(const Ops& o, bool end)
    {
        leafs::World& w = leafs::world();
        if (!w.error.empty()) fail(w.errorKey.c_str(), "%s: %s", o.name, w.error.c_str());
        if (!end) return;
        VF_CHECK(w.liveBlocks == 0 && w.droppedLive == 0, "not-returned", "%s: %llu blocks were never returned to their source", o.name, (unsigned long long)(w.liveBlocks + w.droppedLive));
        VF_CHECK(w.instances == 0, "source-not-destroyed", "%s: %llu sources were never destroyed", o.name, (unsigned long long)w.instances);
        // What a source constructed it also destroys
        std::map<std::pair<int, const void*>, int> alive;
        auto count = [&](const leafs::Event& e) -> int& { return alive[std::make_pair(e.inst, e.p)]; };
        for (auto& e : w.log)
        {
            if (e.op == leafs::Op::Construct) { VF_CHECK(++count(e) == 1, "constructed-twice", "%s: source %d constructed an object where there already is one", o.name, e.inst); stat("constructed_by_sources"); }
            if (e.op == leafs::Op::Destroy) VF_CHECK(--count(e) == 0, "destroyed-by-other", "%s: source %d destroyed an object which it had not constructed", o.name, e.inst);
        }
        for (auto& a : alive) VF_CHECK(a.second == 0, "not-destroyed", "%s: source %d constructed an object which it did not destroy", o.name, a.first.first);
        VF_CHECK(said().items == 0, "reported", "%s: %llu items were reported about a client which did nothing wrong", o.name, (unsigned long long)said().items);
    }

    size_t size_of_request(Rng& rng)
    {
        static const size_t edges[] = { 16, 17, 64, 65, 100, 101, 128, 200, 256, 257 };
        return rng.chance(1, 3) ? edges[rng.below(10)] : rng.range(1, 300);
    }

    void raw(const Ops& o, Rng& rng, uint64_t& trace)
    {
        void* a = o.make();
        std::vector<Blk> live;
        std::map<void*, long> objects;
        const size_t steps = rng.range(10, 60);
        for (size_t i = 0; i < steps; i++)
        {
            const unsigned op = unsigned(rng.below(10));
            if (op < 4)
            {
                const size_t n = size_of_request(rng);
                Blk b{ o.allocate(a, n), n, long(rng.next() >> 2) };
                trace = mix(trace ^ n * 2 ^ (b.p != nullptr));
                if (!b.p) { stat("refusals"); continue; }
                fill_block(b);
                live.push_back(b);
                stat("allocations");
            }
            else if (op < 6 && !live.empty())
            {
                const size_t k = rng.below(live.size());
                const Blk b = live[k];
                live[k] = live.back();
                live.pop_back();
                auto it = objects.find(b.p);
                if (it != objects.end())
                {
                    VF_CHECK(*static_cast<long*>(b.p) == it->second, "object-changed", "%s: an object changed its value", o.name);
                    const int r = o.destroy(a, static_cast<long*>(b.p));
                    VF_CHECK(r == 1, "destruction-not-offered", "%s: what it constructed it cannot destroy", o.name);
                    objects.erase(it);
                }
                else VF_CHECK(holds(b), "contents", "%s: a block of %zu bytes lost its contents", o.name, b.n);
                o.deallocate(a, b.p, b.n);
            }
            else if (op < 8 && !live.empty())
            {
                const Blk& b = live[rng.below(live.size())];
                if (b.n < sizeof(long) || objects.count(b.p)) continue;
                VF_CHECK(holds(b), "contents", "%s: a block of %zu bytes lost its contents", o.name, b.n);
                const long v = long(rng.next() >> 1);
                const int r = o.construct(a, static_cast<long*>(b.p), v);
                VF_CHECK(o.mustConstruct < 0 || (r == 1) == (o.mustConstruct == 1), "construction-offered", "%s: construction is%s offered, which its parts do%s allow", o.name, r == 1 ? "" : " not", r == 1 ? " not" : "");
                if (r == 1)
                {
                    VF_CHECK(*static_cast<long*>(b.p) == v, "object-value", "%s: the object was not constructed with its argument", o.name);
                    objects[b.p] = v;
                    stat("constructions");
                }
                trace = mix(trace ^ unsigned(r + 4));
            }
            else if (op == 8 && !live.empty())
            {
                const int r = o.owns(a, live[rng.below(live.size())].p);
                VF_CHECK((r >= 0) == o.mustOwn, "owns-offered", "%s: owns() is%s offered, which its parts do%s allow", o.name, r >= 0 ? "" : " not", r >= 0 ? " not" : "");
                VF_CHECK(r != 0, "disowned", "%s: it does not own its own block", o.name);
                VF_CHECK(o.owns(a, &live) <= 0, "claims-foreign", "%s: it claims memory which it never gave out", o.name);
                stat("queries");
            }
            else if (op == 9)
            {
                size_t m = 0;
                const bool r = o.maximum(a, &m);
                VF_CHECK(r == o.mustMax, "max-offered", "%s: max_size() is%s offered, which its parts do%s allow", o.name, r ? "" : " not", r ? " not" : "");
                VF_CHECK(o.equal(a, a), "not-itself", "%s: it does not equal itself", o.name);
                stat("queries");
            }
        }
        for (const Blk& b : live)
        {
            if (objects.count(b.p)) o.destroy(a, static_cast<long*>(b.p));
            o.deallocate(a, b.p, b.n);
        }
        books(o, false);
        o.drop(a);
    }

    void typed(const Ops& o, Rng& rng, uint64_t& trace)
    {
        std::vector<void*> handles{ o.typed_make() };
        struct Many { long* p; size_t n; size_t made; long first; };
        std::vector<Many> live;
        const size_t steps = rng.range(6, 40);
        for (size_t i = 0; i < steps; i++)
        {
            void* a = handles[rng.below(handles.size())];
            const unsigned op = unsigned(rng.below(8));
            if (op < 3)
            {
                Many m{ nullptr, rng.range(1, 36), 0, long(rng.next() >> 8) };
                m.p = o.typed_allocate(a, m.n);
                trace = mix(trace ^ m.n * 2 ^ (m.p != nullptr));
                if (!m.p) { stat("refusals"); continue; }
                for (; m.made < m.n; m.made++) o.typed_construct(a, m.p + m.made, m.first + long(m.made));
                live.push_back(m);
                stat("arrays");
            }
            else if (op < 5 && !live.empty())
            {
                const size_t k = rng.below(live.size());
                Many m = live[k];
                live[k] = live.back();
                live.pop_back();
                for (size_t j = 0; j < m.n; j++)
                {
                    VF_CHECK(m.p[j] == m.first + long(j), "object-changed", "%s: an element changed its value", o.name);
                    o.typed_destroy(a, m.p + j);
                }
                o.typed_deallocate(a, m.p, m.n);
            }
            else if (op == 5 && handles.size() < 5) handles.push_back(o.typed_copy(a));
            else if (op == 6)
            {
                const size_t n = size_of_request(rng);
                if (char* p = o.bytes_allocate(a, n))
                {
                    memset(p, 7, n);
                    o.bytes_deallocate(handles[rng.below(handles.size())], p, n);
                    stat("through_other_type");
                }
            }
            else if (op == 7)
            {
                o.typed_maximum(a);
                VF_CHECK(o.typed_equal(a, handles[rng.below(handles.size())]), "not-itself", "%s: copies of a handle do not compare equal", o.name);
            }
        }
        for (Many& m : live)
        {
            void* a = handles[rng.below(handles.size())];
            for (size_t j = 0; j < m.n; j++) o.typed_destroy(a, m.p + j);
            o.typed_deallocate(a, m.p, m.n);
        }
        books(o, false);
        for (void* h : handles) o.typed_drop(h);
    }
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (all().empty())
    {
        register_with_0(); register_with_1(); register_with_2(); register_with_3();
        register_with_4(); register_with_5(); register_with_6(); register_with_7();
        wrap<2, linear_allocator<1024>>("linear");
        wrap<2, mallocator>("mallocator");
        join<1, linear_allocator<600>, mallocator>("linear", "mallocator");
        join<1, mallocator, guarded<mallocator>>("mallocator", "overflow<mallocator>");
        join<1, mallocator, null_allocator>("mallocator", "null");
        join<1, null_allocator, mallocator>("null", "mallocator");
    }
    const Ops& o = all()[idx % all().size()];
    vf::detail("%s", o.name);
    leafs::World& w = leafs::world();
    w.reset();
    w.logging = true;
    w.failSeed = rng.next();
    if (rng.chance(1, 3))
        for (auto& c : w.cfg) { c.cap = rng.range(300, 3000); if (rng.chance(1, 2)) c.failNum = 6000; }
    said().items = 0;
    uint64_t trace = hash_str(o.name);
    raw(o, rng, trace);
    books(o, true);
    w.log.clear();
    typed(o, rng, trace);
    books(o, true);
    sig(trace);
    stat("compositions", idx < all().size());
    sample(o.name);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c39", run_case); }
