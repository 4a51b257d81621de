// Generic allocator workload: every composition in the registry under random, adversarial and exhaustion-heavy client
// behaviour, with the oracles selected by VF_MODE (a property each):
//   intact | align | owns | max | clean | ledger | none | digest
#include "memhook.h"
#include "shadow.h"
#include "subjects.h"

#include <algorithm>

using namespace vf;

namespace
{
    enum Mode { INTACT = 1, ALIGN = 2, OWNS = 4, MAX = 8, CLEAN = 16, NONE = 32, DIGEST = 64, LEDGER = 128 };
    unsigned g_mode = 0;

    size_t round_unit(size_t n, size_t unit) { return unit <= 1 ? n : (n + unit - 1) / unit * unit; }

    size_t gen_size(const Spec& sp, Rng& rng)
    {
        size_t n = 0;
        const size_t k = rng.below(100);
        if (k < 40) n = rng.range(1, sp.typical);
        else if (k < 65)
        {
            static const int d[] = { 0, 0, 0, 1, -1, 7, -7, 8, -8, 15, -15, 16, -16, 17, 32, -32, -64, -128, -127, -129 };
            const size_t b = sp.sizes[rng.below(sp.sizes.size())];
            const long off = d[rng.below(sizeof d / sizeof *d)];
            n = off < 0 && size_t(-off) >= b ? b : b + size_t(off);
        }
        else if (k < 80) n = rng.range(1, 16);
        else if (k < 90) n = size_t(1) << rng.below(11);
        else if (k < 95) n = rng.range(1, 2 * sp.typical + 64);
        else if (k < 97) n = 0;
        else if (k == 97 && sp.big && rng.chance(1, 8)) n = rng.range(60000, rng.chance(1, 6) ? 3000000 : 300000);
        else
        {
            // large fractions of a boundary
            const size_t b = sp.sizes[rng.below(sp.sizes.size())];
            n = b / rng.range(1, 8) + rng.below(3);
        }
        return round_unit(n, sp.unit);
    }

    struct Run
    {
        const Spec& sp;
        Rng& rng;
        std::unique_ptr<Subject> s;
        Shadow sh;
        uint64_t trace;
        uint64_t ok = 0, refused = 0, freed = 0, zero = 0, probes = 0;
        uintptr_t origin = 0;
        bool hasMax = false;
        size_t maxSize = 0;

        Run(const Spec& spec, Rng& r) : sp(spec), rng(r), sh(r.next()), trace(hash_str(spec.name.c_str())) {}

        void note(uint64_t v) { trace = mix(trace ^ v); }

        void* allocate(size_t n)
        {
            detail("%s op=allocate(%zu) live=%zu", sp.name.c_str(), n, sh.live.size());
            void* p = s->allocate(n);
            note(n * 2 + (p != nullptr));
            if (g_mode & DIGEST)
            {
                digest(n * 2 + (p != nullptr));
                if (p && sp.cap && !sp.heap && sp.name.find("shared") == sp.name.rfind("shared")) // one arena, or arenas inside one object
                {
                    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
                    if (!origin) origin = a;
                    digest(uint64_t(a - origin));
                }
            }
            if (!p)
            {
                refused++;
                if (g_mode & MAX)
                    refused_check(n);
                return nullptr;
            }
            ok++;
            if (n == 0) zero++;
            ledger_check();
            if (g_mode & INTACT)
            {
                // The block lies within memory the composition really obtained from its source
                const uintptr_t a = reinterpret_cast<uintptr_t>(p);
                leafs::World& w = leafs::world();
                auto it = w.all.upper_bound(a);
                if (it != w.all.begin())
                {
                    --it;
                    if (a < it->first + it->second.first)
                        VF_CHECK(a + n <= it->first + it->second.first, "beyond-source", "%s: allocate(%zu) gave a block which ends %zu bytes past the memory obtained for it", sp.name.c_str(), n, size_t(a + n - it->first - it->second.first));
                }
                uintptr_t start;
                size_t len;
                if (memhook::containing(p, &start, &len))
                    VF_CHECK(a + n <= start + len, "beyond-source", "%s: allocate(%zu) gave a block which ends %zu bytes past the %zu bytes obtained from the heap for it", sp.name.c_str(), n, size_t(a + n - start - len), len);
            }
            if ((g_mode & ALIGN) && n)
            {
                stat("alignment_checks");
                VF_CHECK(reinterpret_cast<uintptr_t>(p) % alignof(std::max_align_t) == 0, "misaligned", "%s: allocate(%zu) gave %p, not aligned to %zu", sp.name.c_str(), n, p, alignof(std::max_align_t));
            }
            if (g_mode & MAX)
            {
                if (hasMax) { stat("max_checks"); VF_CHECK(n <= maxSize, "max-too-small", "%s: max_size() is %zu but a request of %zu bytes succeeded", sp.name.c_str(), maxSize, n); }
            }
            if ((g_mode & OWNS) && n) owns_check(p, n, 1);
            uintptr_t clash = 0;
            if (!sh.add(p, n, &clash))
            {
                if (g_mode & INTACT)
                    fail("overlap", "%s: allocate(%zu) gave [%p,+%zu) which overlaps the live block at %p (%zu bytes)", sp.name.c_str(), n, p, n, reinterpret_cast<void*>(clash), sh.byAddr[clash]);
                // Not this property's business, but the rest of the case means nothing
                throw 1;
            }
            return p;
        }

        void refused_check(size_t) {}

        // What the recorded sources have to say about what they were given back
        void ledger_check()
        {
            if (!(g_mode & LEDGER)) return;
            leafs::World& w = leafs::world();
            stat("ledger_checks");
            if (!w.error.empty()) fail(w.errorKey.c_str(), "%s: %s", sp.name.c_str(), w.error.c_str());
            VF_CHECK(w.droppedLive == 0, "source-dropped-early", "%s: a source was destroyed while %llu of its blocks were outstanding", sp.name.c_str(), (unsigned long long)w.droppedLive);
        }

        // The memory behind a live block has not been given back to where it came from
        void backing_check(const Block& b)
        {
            if (!b.n) return;
            const bool fromLeaf = sp.leafy && leafs::containing(b.p);
            if (sp.leafy || sp.heap) stat("backing_checks");
            if (sp.leafy && !sp.heap)
                VF_CHECK(fromLeaf, "returned-while-held", "%s: a block of %zu bytes is held by the client, but its memory was already returned to its source", sp.name.c_str(), b.n);
            if (sp.heap && !sp.cap && sp.onlyHeap)
                VF_CHECK(memhook::containing(b.p, nullptr, nullptr), "returned-while-held", "%s: a block of %zu bytes is held by the client, but its memory was already returned to the heap", sp.name.c_str(), b.n);
        }

        void owns_check(void* p, size_t n, int want)
        {
            const int a = s->owns(p);
            VF_CHECK((a >= 0) == sp.mustOwn, a >= 0 ? "owns-wrongly-offered" : "owns-not-offered", "%s: owns() is %s, but its parts %s", sp.name.c_str(), a >= 0 ? "offered" : "not offered", a >= 0 ? "do not all have one" : "have one");
            if (a < 0) { stat("owns_not_offered"); return; }
            stat("owns_probes");
            probes++;
            VF_CHECK(a == want, want ? "disowned" : "claims-foreign", "%s: owns(%p) is %d for %s (block of %zu bytes)", sp.name.c_str(), p, a, want ? "a live block of its own" : "memory it never gave out", n);
            if (n && want && sp.unit == 1)
            {
                char* c = static_cast<char*>(p);
                VF_CHECK(s->owns(c + n - 1) == 1, "disowned", "%s: owns() is false for the last byte of its own live block of %zu bytes", sp.name.c_str(), n);
                VF_CHECK(s->owns(c + rng.below(n)) == 1, "disowned", "%s: owns() is false inside its own live block of %zu bytes", sp.name.c_str(), n);
            }
        }

        void verify_block(const Block& b)
        {
            if (!(g_mode & INTACT)) return;
            stat("content_checks");
            const size_t w = verify(b.p, b.n, b.id);
            VF_CHECK(w == SIZE_MAX, "damaged", "%s: live block %p (%zu bytes) changed at offset %zu although its holder did not write it", sp.name.c_str(), static_cast<void*>(b.p), b.n, w);
        }

        void free_at(size_t i)
        {
            Block b = sh.take(i);
            verify_block(b);
            if ((g_mode & OWNS) && b.n) owns_check(b.p, b.n, 1);
            detail("%s op=deallocate(%zu) live=%zu", sp.name.c_str(), b.n, sh.live.size());
            note(b.n * 2 + 0x10000);
            if (g_mode & LEDGER) backing_check(b);
            s->deallocate(b.p, b.n);
            freed++;
            ledger_check();
        }

        void full_check()
        {
            if (g_mode & LEDGER)
                for (const Block& b : sh.live) backing_check(b);
            if (!(g_mode & INTACT)) return;
            size_t w = 0;
            const Block* b = sh.damaged(&w);
            stat("content_checks", sh.live.size());
            if (b) fail("damaged", "%s: live block %p (%zu bytes) changed at offset %zu although its holder did not write it", sp.name.c_str(), static_cast<void*>(b->p), b->n, w);
            VF_CHECK(s->guards_ok(), "outside-write", "%s: memory next to the allocator object was overwritten", sp.name.c_str());
        }

        size_t choose(unsigned policy)
        {
            const size_t n = sh.live.size();
            switch (policy)
            {
            case 0: return n - 1;
            case 1: return 0;
            case 2: return rng.below(n);
            default: return rng.chance(3, 4) ? n - 1 : rng.below(n);
            }
        }

        void refresh_max(bool first)
        {
            size_t m = 0;
            const bool h = s->max_size(&m);
            if (first)
            {
                hasMax = h;
                maxSize = m;
                if (g_mode & MAX)
                {
                    VF_CHECK(h == sp.mustMax, h ? "max-wrongly-offered" : "max-not-offered", "%s: max_size() is %s, but its parts %s", sp.name.c_str(), h ? "offered" : "not offered", h ? "do not all have one" : "have one");
                    stat(h ? "max_offered" : "max_not_offered");
                }
            }
            else if (g_mode & MAX)
                VF_CHECK(h == hasMax && m == maxSize, "max-changes", "%s: max_size() was %zu and is now %zu", sp.name.c_str(), maxSize, m);
            if (g_mode & DIGEST) digest(m);
        }
    };

    void configure_leafs(Rng& rng)
    {
        leafs::World& w = leafs::world();
        w.reset();
        static const size_t single[] = { 512, 513, 1000, 4096 };
        static const size_t caps[] = { 1024, 2048, 5000, SIZE_MAX };
        for (int t = 0; t < leafs::TAGS; t++)
        {
            w.cfg[t].maxSingle = single[rng.below(4)];
            w.cfg[t].cap = caps[rng.below(4)];
            w.cfg[t].maxReport = std::min(w.cfg[t].maxSingle, w.cfg[t].cap);
            if (rng.chance(1, 4) && !(g_mode & (CLEAN | MAX | DIGEST))) w.cfg[t].failNum = 6000;
        }
        w.failSeed = rng.next();
    }

    size_t budget(const Spec& sp) { return sp.cap ? sp.cap * 2 : std::max<size_t>(size_t(1) << 15, sp.typical * 40); }

    // ---------------------------------------------------------------- the shared client program
    void client(Run& r, size_t ops)
    {
        Rng& rng = r.rng;
        const size_t limit = budget(r.sp);
        const unsigned shape = unsigned(rng.below(5));
        unsigned policy = unsigned(rng.below(4));
        unsigned allocBias = 50;
        size_t fixedSize = rng.chance(1, 4) ? gen_size(r.sp, rng) : SIZE_MAX;
        r.note(shape);
        for (size_t i = 0; i < ops; i++)
        {
            if (i % 32 == 0)
            {
                // phases: growing, shrinking, churning
                allocBias = unsigned(shape == 0 ? 50 : shape == 1 ? (i / 32 % 2 ? 20 : 90) : shape == 2 ? (i / 64 % 2 ? 2 : 98) : rng.range(10, 95));
                if (rng.chance(1, 3)) policy = unsigned(rng.below(4));
                if (shape == 4) fixedSize = rng.chance(1, 2) ? gen_size(r.sp, rng) : SIZE_MAX;
            }
            const bool canFree = !r.sh.live.empty();
            const bool mustFree = r.sh.liveBytes > limit || r.sh.live.size() > 600;
            if (!mustFree && (!canFree || rng.below(100) < allocBias))
                r.allocate(fixedSize != SIZE_MAX && rng.chance(7, 8) ? fixedSize : gen_size(r.sp, rng));
            else if (canFree)
                r.free_at(r.choose(policy));
            if (canFree && !r.sh.live.empty() && rng.chance(1, 3)) r.verify_block(r.sh.live[rng.below(r.sh.live.size())]);
            if (i % 64 == 63) { r.full_check(); r.refresh_max(false); }
            if ((g_mode & OWNS) && rng.chance(1, 6))
            {
                // Memory which is certainly not its own
                static char stat_mem[64];
                char stk[64];
                std::unique_ptr<char[]> heap(new char[rng.range(1, 400)]);
                void* foreign[] = { stat_mem, stk, heap.get(), &r.sh, stat_mem + 63 };
                void* f = rng.chance(1, 2) ? foreign[rng.below(5)] : r.s->neighbour(rng.below(6));
                r.owns_check(f, 0, 0);
            }
        }
        r.full_check();
    }

    void drain(Run& r)
    {
        const unsigned policy = unsigned(r.rng.below(3));
        while (!r.sh.live.empty()) r.free_at(r.choose(policy));
    }

    void finish_stats(Run& r)
    {
        stat("allocations", r.ok);
        stat("refusals", r.refused);
        stat("deallocations", r.freed);
        stat("zero_sized", r.zero);
        if (r.ok) sig(r.trace);
        sample(fmt("%s: %llu allocations, %llu refusals, %llu deallocations", r.sp.name.c_str(), (unsigned long long)r.ok, (unsigned long long)r.refused, (unsigned long long)r.freed));
    }

    // A single arena, in however many handles: the bytes before and after it are not its own
    void arena_ends(Run& r)
    {
        const std::string& n = r.sp.name;
        const size_t arenas = (n.find("linear<") != std::string::npos) + (n.find("stack<") != std::string::npos);
        if (arenas != 1 || n.find("linear<") != n.rfind("linear<") || n.find("stack<") != n.rfind("stack<") || !r.sp.cap || r.sp.heap) return;
        for (const char* other : { "freelist", "overflow", "cascading", "fallback", "segragator", "global", "leaf" })
            if (n.find(other) != std::string::npos) return;
        const size_t b = r.sp.unit;
        if (b > r.sp.cap) return;
        void* p = r.s->allocate(b);
        if (!p) return;
        char* base = static_cast<char*>(p);
        r.owns_check(base - 1, 0, 0);
        r.owns_check(base + r.sp.cap, 0, 0);
        r.s->deallocate(p, b);
        stat("arena_ends");
    }

    void general_case(const Spec& sp, Rng& rng)
    {
        configure_leafs(rng);
        const memhook::Counters heap0 = memhook::get();
        const uint64_t instances0 = leafs::world().instances;
        Run r(sp, rng);
        r.s = sp.make();
        r.refresh_max(true);
        size_t ops = rng.chance(1, 12) ? 1500 : rng.range(40, 260);
        if (sp.typical > 20000) ops = std::min<size_t>(ops, 150);
        std::unique_ptr<Subject> other;
        try
        {
            if (g_mode & OWNS) arena_ends(r);
            client(r, ops);
            if (g_mode & OWNS)
            {
                // Blocks of another instance of the same composition are foreign too, unless all instances share state
                const bool sharedState = sp.name.compare(0, 6, "global") == 0 || sp.name.find("shared leaf") != std::string::npos;
                if (!sharedState && r.s->owns(&other) >= 0)
                {
                    std::unique_ptr<Subject> t = sp.make();
                    Run r2(sp, rng);
                    r2.s = std::move(t);
                    for (int k = 0; k < 6; k++)
                    {
                        const size_t n = gen_size(sp, rng);
                        if (n == 0) continue;
                        if (void* p = r2.allocate(n)) r.owns_check(p, n, 0);
                    }
                    for (auto& b : r.sh.live)
                        if (b.n) r2.owns_check(b.p, b.n, 0);
                    stat("cross_instance_cases");
                    drain(r2);
                    r2.s.reset();
                }
            }
            drain(r);
            if (g_mode & MAX) r.refresh_max(false);
            // Once everything was given back the allocator still works
            if (rng.chance(1, 2))
            {
                client(r, 24);
                drain(r);
            }
        }
        catch (int) { stat("abandoned"); leafs::world(); finish_stats(r); (void)r.s.release(); return; }
        r.s.reset();
        if ((g_mode & LEDGER) && sp.name.compare(0, 6, "global") != 0)
        {
            detail("%s destroyed after everything was given back", sp.name.c_str());
            r.ledger_check();
            leafs::World& w = leafs::world();
            const memhook::Counters h = memhook::get();
            stat("conservation_checks");
            if (sp.heap) stat("heap_requests", h.mallocs - heap0.mallocs);
            stat("source_requests", w.totalAllocs);
            VF_CHECK(w.liveBlocks == 0, "not-returned", "%s: %llu blocks (%llu bytes) obtained from the source were never returned to it", sp.name.c_str(), (unsigned long long)w.liveBlocks, (unsigned long long)w.liveBytes);
            VF_CHECK(h.live_blocks == heap0.live_blocks, "not-returned", "%s: %lld blocks (%lld bytes) obtained from the heap were never returned to it", sp.name.c_str(), (long long)(h.live_blocks - heap0.live_blocks), (long long)(h.live_bytes - heap0.live_bytes));
            VF_CHECK(w.instances == instances0 + w.sharedStates(), "source-not-destroyed", "%s: %llu source allocators were never destroyed", sp.name.c_str(), (unsigned long long)(w.instances - instances0 - w.sharedStates()));
        }
        finish_stats(r);
    }

    // ---------------------------------------------------------------- max_size (C18)
    void max_case(const Spec& sp, Rng& rng)
    {
        general_case(sp, rng);
        configure_leafs(rng);
        {
            size_t m;
            std::unique_ptr<Subject> s = sp.make();
            if (!s->max_size(&m)) { stat("no_max_size"); return; }
            detail("%s fresh max_size()=%zu", sp.name.c_str(), m);
            if (m % sp.unit) fail("max-unit", "%s: max_size() is not a whole number of objects", sp.name.c_str());
            if (m > 0 && m < (size_t(1) << 24))
            {
                void* p = s->allocate(m);
                stat("exact_max_requests");
                VF_CHECK(p != nullptr, "max-unreachable", "%s: max_size() is %zu but a fresh allocator refuses a request of exactly that size", sp.name.c_str(), m);
                fill(static_cast<char*>(p), m, m);
                VF_CHECK(verify(static_cast<char*>(p), m, m) == SIZE_MAX, "max-unusable", "%s: the block of max_size() bytes does not hold its contents", sp.name.c_str());
                s->deallocate(p, m);
            }
        }
        for (int k = 0; k < 12; k++)
        {
            size_t m;
            std::unique_ptr<Subject> s = sp.make();
            s->max_size(&m);
            if (m > SIZE_MAX / 2) break;
            const size_t more = k < 4 ? m + sp.unit * (size_t(k) + 1) : k < 8 ? round_unit(m + 1 + rng.below(4096), sp.unit) : round_unit(m + 1 + (rng.next() >> rng.range(20, 60)), sp.unit);
            if (more > (size_t(1) << 40)) continue;
            detail("%s fresh max_size()=%zu request=%zu", sp.name.c_str(), m, more);
            void* p = s->allocate(more);
            stat("above_max_requests");
            if (p)
                fail("max-too-small", "%s: max_size() is %zu but a fresh allocator serves a request of %zu bytes", sp.name.c_str(), m, more);
        }
    }

    // ---------------------------------------------------------------- failing requests leave no trace (C03)
    struct Foot { int64_t heap = 0, blocks = 0, leafBytes = 0, leafInst = 0; };

    Foot foot_now()
    {
        const memhook::Counters c = memhook::get();
        const leafs::World& w = leafs::world();
        return Foot{ int64_t(c.live_bytes), int64_t(c.live_blocks), int64_t(w.liveBytes), int64_t(w.instances) };
    }

    template<typename F>
    auto metered(Foot& f, F fn)
    {
        const Foot a = foot_now();
        auto r = fn();
        const Foot b = foot_now();
        f.heap += b.heap - a.heap;
        f.blocks += b.blocks - a.blocks;
        f.leafBytes += b.leafBytes - a.leafBytes;
        f.leafInst += b.leafInst - a.leafInst;
        return r;
    }

    size_t huge_size(const Spec& sp, Rng& rng)
    {
        switch (rng.below(10))
        {
        case 0: return SIZE_MAX - rng.below(4);
        case 1: return SIZE_MAX - rng.below(300);
        case 2: return (SIZE_MAX / 2) + rng.below(40) - 20;
        case 3: return (size_t(1) << 63) + rng.below(64) - 32;
        case 4: return (size_t(1) << rng.range(33, 63)) + rng.below(200) - 100;
        case 5: return (size_t(1) << 32) + rng.below(2 * sp.typical + 2);        // wraps to small in 32 bits
        case 6: return SIZE_MAX - sp.sizes[rng.below(sp.sizes.size())] + rng.below(33) - 16;
        case 7: return SIZE_MAX - 127 + rng.below(40) - 20;
        case 8: return (size_t(rng.range(1, 1000)) << 32) + rng.below(sp.typical + 1);
        default: return (size_t(rng.range(1, 255)) << 56) + rng.below(sp.typical + 1);
        }
    }

    void clean_case(const Spec& sp, Rng& rng)
    {
        if (sp.name.compare(0, 6, "global") == 0 || sp.name.find("shared leaf") != std::string::npos) { general_case(sp, rng); return; } // two instances would be one
        configure_leafs(rng);
        Run r(sp, rng);
        r.s = sp.make();
        std::unique_ptr<Subject> twin = sp.make();
        std::vector<void*> twinLive;
        Foot fs, ft;
        uint64_t injected = 0, hugeReq = 0, exhausted = 0;

        auto both = [&](size_t n, bool deny) {
            if (deny) memhook::deny_all(true);
            void* p = metered(fs, [&] { return r.allocate(n); });
            void* q = metered(ft, [&] { return twin->allocate(n); });
            memhook::deny_all(false);
            VF_CHECK((p != nullptr) == (q != nullptr), "failure-left-a-trace",
                "%s: allocate(%zu) %s here but %s on a twin which went through the same history without the failed requests", sp.name.c_str(), n, p ? "succeeded" : "failed", q ? "succeeded" : "failed");
            if (p) twinLive.push_back(q);
            return p;
        };
        auto freeBoth = [&](size_t i) {
            const size_t n = r.sh.live[i].n;
            void* q = twinLive[i];
            twinLive.erase(twinLive.begin() + ptrdiff_t(i));
            metered(fs, [&] { r.free_at(i); return 0; });
            metered(ft, [&] { twin->deallocate(q, n); return 0; });
        };
        auto compare = [&](const char* when) {
            stat("footprint_comparisons");
            VF_CHECK(fs.heap == ft.heap && fs.blocks == ft.blocks && fs.leafBytes == ft.leafBytes && fs.leafInst == ft.leafInst, "failure-kept-memory",
                "%s: after %s the allocator holds %lld heap bytes in %lld blocks and %lld source bytes in %lld instances; its twin without the failed requests %lld/%lld/%lld/%lld",
                sp.name.c_str(), when, (long long)fs.heap, (long long)fs.blocks, (long long)fs.leafBytes, (long long)fs.leafInst, (long long)ft.heap, (long long)ft.blocks, (long long)ft.leafBytes, (long long)ft.leafInst);
        };

        try
        {
            // Warm up, so that what is created on first use exists on both sides
            for (size_t n : { round_unit(SIZE_MAX / 2, sp.unit), sp.cap ? round_unit(sp.cap + 1, sp.unit) : round_unit(size_t(1) << 40, sp.unit) })
            {
                detail("%s op=allocate(%zu), impossible, first use", sp.name.c_str(), n);
                VF_CHECK(metered(fs, [&] { return r.s->allocate(n); }) == nullptr, "impossible-request-served", "%s: a request of %zu bytes succeeded", sp.name.c_str(), n);
                VF_CHECK(metered(ft, [&] { return twin->allocate(n); }) == nullptr, "impossible-request-served", "%s: a request of %zu bytes succeeded", sp.name.c_str(), n);
            }
            for (size_t n : { sp.unit, round_unit(sp.sizes[0], sp.unit), round_unit(17, sp.unit), round_unit(sp.sizes.back(), sp.unit), round_unit(sp.typical / 2 + 1, sp.unit) })
                if (both(n, false)) freeBoth(r.sh.live.size() - 1);

            const size_t ops = sp.typical > 20000 ? 60 : rng.range(40, 160);
            const size_t limit = budget(sp);
            unsigned policy = unsigned(rng.below(4));
            unsigned bias = 60;
            for (size_t i = 0; i < ops; i++)
            {
                if (i % 24 == 0) { bias = unsigned(rng.range(30, 95)); policy = unsigned(rng.below(4)); }
                const size_t k = rng.below(100);
                if (k < 30)
                {
                    // cannot possibly be served
                    const bool units = sp.unit > 1 && rng.chance(1, 2);
                    size_t n = huge_size(sp, rng);
                    if (units)
                    {
                        // a count whose size in bytes wraps around
                        const size_t c = SIZE_MAX / sp.unit;
                        n = rng.chance(1, 2) ? c + 1 + rng.below(40) : (rng.chance(1, 2) ? (size_t(1) << 63) / sp.unit * 2 + 1 + rng.below(20) : SIZE_MAX - rng.below(40));
                    }
                    else if (sp.unit > 1)
                        n = n / sp.unit * sp.unit;
                    else if (sp.cap && rng.chance(1, 3))
                        n = sp.cap + 1 + rng.below(5000);
                    if (!units && n < (size_t(1) << 32) && !(sp.cap && n > sp.cap)) continue;
                    if (units && n <= SIZE_MAX / sp.unit) continue;
                    detail("%s op=allocate%s(%zu), impossible", sp.name.c_str(), units ? "_units" : "", n);
                    hugeReq++;
                    r.note(n);
                    void* p = metered(fs, [&] { return units ? r.s->allocate_units(n) : r.s->allocate(n); });
                    VF_CHECK(p == nullptr, "impossible-request-served", "%s: a request of %zu %s succeeded", sp.name.c_str(), n, units ? "objects" : "bytes");
                    compare("an impossible request");
                    r.full_check();
                }
                else if (k < 40)
                {
                    // the C heap has nothing left
                    const size_t n = gen_size(sp, rng);
                    const uint64_t d0 = memhook::get().denied;
                    memhook::deny_all(true);
                    detail("%s op=allocate(%zu), heap exhausted", sp.name.c_str(), n);
                    void* p = metered(fs, [&] { return r.allocate(n); });
                    memhook::deny_all(false);
                    if (memhook::get().denied != d0) injected++;
                    if (p)
                    {
                        memhook::deny_all(true);
                        void* q = metered(ft, [&] { return twin->allocate(n); });
                        memhook::deny_all(false);
                        VF_CHECK(q != nullptr, "failure-left-a-trace", "%s: allocate(%zu) succeeded here but not on its twin", sp.name.c_str(), n);
                        twinLive.push_back(q);
                    }
                    compare("a request while the heap was exhausted");
                }
                else if (!r.sh.live.empty() && (rng.below(100) >= bias || r.sh.liveBytes > limit || r.sh.live.size() > 300))
                    freeBoth(r.choose(policy));
                else
                {
                    if (!both(gen_size(sp, rng), false)) exhausted++;
                }
                compare("an ordinary step");
            }
            while (!r.sh.live.empty()) freeBoth(r.choose(policy));
            compare("everything was given back");
            // Both serve again
            for (int i = 0; i < 4; i++) both(gen_size(sp, rng), false);
            while (!r.sh.live.empty()) freeBoth(r.sh.live.size() - 1);
        }
        catch (int) { stat("abandoned"); finish_stats(r); (void)r.s.release(); (void)twin.release(); return; }
        r.s.reset();
        twin.reset();
        stat("impossible_requests", hugeReq);
        stat("heap_denials", injected);
        stat("ordinary_refusals", exhausted);
        finish_stats(r);
    }

    // Heap exhaustion at a chosen point of a client program (C03): whatever fails, what was given stays good and is returned
    void oom_case(const Spec& sp, Rng& rng)
    {
        configure_leafs(rng);
        const uint64_t d0 = memhook::get().denied;
        Run r(sp, rng);
        r.s = sp.make();
        memhook::deny_random(uint32_t(rng.range(2000, 40000)), rng.next());
        try
        {
            client(r, rng.range(40, 200));
            memhook::deny_random(0, 0);
            drain(r);
        }
        catch (int) { memhook::deny_random(0, 0); stat("abandoned"); (void)r.s.release(); return; }
        memhook::deny_random(0, 0);
        r.s.reset();
        stat("heap_denials", memhook::get().denied - d0);
        finish_stats(r);
    }

    void run_case(uint64_t i, Rng& rng)
    {
        auto& reg = registry();
        const Spec& sp = reg[size_t(i % reg.size())];
        memhook::deny_random(0, 0);
        memhook::deny_all(false);
        memhook::deny_at(-1);
        detail("%s", sp.name.c_str());
        if (g_mode & CLEAN)
        {
            if (i / reg.size() % 4 == 3) oom_case(sp, rng);
            else clean_case(sp, rng);
        }
        else if (g_mode & MAX) max_case(sp, rng);
        else general_case(sp, rng);
        stat("subjects_seen", 0);
        ctx().stats["cases:" + sp.name]++;
    }
}

namespace vf
{
    size_t all_offers(void (*fn)(const std::string& name, bool owns, bool mustOwn, bool max, bool mustMax));
}

static void offers_check(const std::string& name, bool owns, bool mustOwn, bool max, bool mustMax)
{
    if (g_mode & OWNS)
        VF_CHECK(owns == mustOwn, owns ? "owns-wrongly-offered" : "owns-not-offered", "%s: owns() is %s, but its parts %s", name.c_str(), owns ? "offered" : "not offered", owns ? "do not all have one" : "have one");
    if (g_mode & MAX)
        VF_CHECK(max == mustMax, max ? "max-wrongly-offered" : "max-not-offered", "%s: max_size() is %s, but its parts %s", name.c_str(), max ? "offered" : "not offered", max ? "do not all have one" : "have one");
}

static void first_case(uint64_t idx, Rng& rng)
{
    if (idx == 0 && (g_mode & (OWNS | MAX))) stat("offers", vf::all_offers(offers_check));
    run_case(idx, rng);
}

int main(int argc, char** argv)
{
    const std::string m = getenv("VF_MODE") ? getenv("VF_MODE") : "intact";
    if (m == "intact") g_mode = INTACT;
    else if (m == "align") g_mode = ALIGN;
    else if (m == "owns") g_mode = OWNS;
    else if (m == "max") g_mode = MAX;
    else if (m == "clean") g_mode = CLEAN;
    else if (m == "none") g_mode = NONE;
    else if (m == "ledger") g_mode = LEDGER;
    else if (m == "digest") g_mode = DIGEST;
    else { fprintf(stderr, "VF_MODE?\n"); return 3; }
    register_all();
    return run_main(argc, argv, "gen", first_case);
}
