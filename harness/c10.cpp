// C10: the corruption-detecting allocator reports exactly the damage that was done.
#include "leaf.h"
#include "subjects.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <functional>
#include <memory>
#include <sstream>
#include <sys/mman.h>

using namespace vf;

namespace
{
    struct OV
    {
        virtual ~OV() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual std::string take() = 0;                   // what was streamed since
        virtual std::string takeInner() { return {}; }
        virtual size_t unit() { return 1; }
    };

    std::string take(Sink& s) { std::string r; r.swap(s.text); s.items = 0; return r; }
    std::string take(std::ostringstream& s) { std::string r = s.str(); s.str(""); s.clear(); return r; }

    template<typename A, typename S>
    struct Raw : OV
    {
        S s;
        A a;
        Raw() : a(s) {}
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(p, n); }
        std::string take() override { return ::take(s); }
    };
    template<typename A, typename T, typename S>
    struct Typed : OV
    {
        S s;
        A a;
        Typed() : a(s) {}
        void* allocate(size_t n) override { return a.allocate(n / sizeof(T)); }
        void deallocate(void* p, size_t n) override { a.deallocate(static_cast<T*>(p), n / sizeof(T)); }
        std::string take() override { return ::take(s); }
        size_t unit() override { return sizeof(T); }
    };
    template<typename A, typename S>
    struct Nested : OV
    {
        S s, in;
        A a;
        Nested() : a(s, in) {}
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(p, n); }
        std::string take() override { return ::take(s); }
        std::string takeInner() override { return ::take(in); }
    };
    template<size_t N, typename S>
    struct OnStack : OV
    {
        std::unique_ptr<ktl::stack<N>> st{ new ktl::stack<N> };
        S s;
        ktl::overflow<ktl::stack_allocator<N>, S> a;
        OnStack() : a(s, *st) {}
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(p, n); }
        std::string take() override { return ::take(s); }
    };

    // Address space only: for blocks of gigabytes of which a few pages are touched
    struct huge
    {
        bool operator==(const huge&) const noexcept { return true; }
        bool operator!=(const huge&) const noexcept { return false; }
        void* allocate(size_t n) noexcept
        {
            void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            return p == MAP_FAILED ? nullptr : p;
        }
        void deallocate(void* p, size_t n) noexcept { munmap(p, n); }
    };

    struct Entry { std::string name; size_t typical; int nested; bool big; std::function<std::unique_ptr<OV>()> make; };
    std::vector<Entry>& entries() { static auto* e = new std::vector<Entry>; return *e; }

    template<typename X>
    void add(const char* n, size_t typical, int nested = 0, bool big = false) { entries().push_back({ n, typical, nested, big, [] { return std::unique_ptr<OV>(new X); } }); }

    template<typename S, typename Str>
    void streams(const char* sn)
    {
        using namespace ktl;
        using LB = leafs::leaf<0, 0>;
        using LO = leafs::leaf<1, leafs::OWNS | leafs::MAXSZ | leafs::CTOR>;
        auto nm = [&](const char* n) { return strdup(fmt("%s on %s", n, sn).c_str()); };
        add<Raw<overflow<LB, Str>, S>>(nm("overflow<leaf>"), 300);
        add<Raw<overflow<LO, Str>, S>>(nm("overflow<leaf rich>"), 300);
        add<Raw<overflow<mallocator, Str>, S>>(nm("overflow<mallocator>"), 5000);
        add<Raw<overflow<linear_allocator<8192>, Str>, S>>(nm("overflow<linear>"), 100);
        add<OnStack<8192, S>>(nm("overflow<stack>"), 100);
        add<Raw<overflow<freelist<0, 512, LB>, Str>, S>>(nm("overflow<freelist>"), 384);
        add<Raw<overflow<cascading<linear_allocator<1024>>, Str>, S>>(nm("overflow<cascading<linear>>"), 300);
        add<Raw<overflow<fallback<linear_allocator<2048>, LB>, Str>, S>>(nm("overflow<fallback<linear,leaf>>"), 300);
        add<Raw<overflow<segragator<200, LO, LB>, Str>, S>>(nm("overflow<segragator<leaf,leaf>>"), 200);
        add<Raw<threaded<overflow<LB, Str>>, S>>(nm("threaded<overflow<leaf>>"), 300);
        add<Raw<fallback<overflow<LO, Str>, LB>, S>>(nm("fallback<overflow<leaf>,leaf>"), 300);
        add<Raw<segragator<2000, overflow<LO, Str>, LB>, S>>(nm("segragator<overflow<leaf>,leaf>"), 300);
        add<Typed<type_allocator<uint16_t, shared<overflow<LB, Str>>>, uint16_t, S>>(nm("type<2B,shared<overflow<leaf>>>"), 300);
        add<Typed<type_overflow_allocator<uint64_t, mallocator, Str>, uint64_t, S>>(nm("type<8B,overflow<mallocator>>"), 800);
        add<Nested<overflow<overflow<LB, Str>, Str>, S>>(nm("overflow<overflow<leaf>>"), 300, 1);
        add<Raw<overflow<LB, Str>, S>>(nm("overflow<leaf> big"), 1 << 20);
        add<Raw<overflow<huge, Str>, S>>(nm("overflow<address space>"), size_t(5) << 30, 0, true);
    }
    void build()
    {
        streams<Sink, Sink>("Sink");
        streams<std::ostringstream, std::ostream>("ostream");
    }

    struct Held
    {
        unsigned char* p;
        size_t n;
        std::map<ptrdiff_t, unsigned char> original; // of the bytes around it that were written
    };

    // What the text says. Returns false if it isn't a report of a corruption
    struct Report { std::string addr; size_t size; size_t before, after; };
    bool parse(const std::string& t, Report& r)
    {
        const size_t x = t.find("0x");
        if (x == std::string::npos) return false;
        size_t e = x + 2;
        while (e < t.size() && isxdigit((unsigned char)t[e])) e++;
        r.addr = t.substr(x, e - x);
        size_t d = e;
        while (d < t.size() && !isdigit((unsigned char)t[d])) d++;
        if (d == t.size()) return false;
        r.size = strtoull(t.c_str() + d, nullptr, 10);
        auto side = [&](const char* name) -> size_t {
            const size_t b = t.find(name, e);
            if (b == std::string::npos) return 0;
            size_t k = b;
            while (k < t.size() && !isdigit((unsigned char)t[k])) k++;
            return strtoull(t.c_str() + k, nullptr, 10);
        };
        r.before = side("Before");
        r.after = side("After");
        return true;
    }

    void judge(const std::string& text, const unsigned char* p, size_t n, size_t before, size_t after, const char* which)
    {
        if (!before && !after)
        {
            VF_CHECK(text.empty(), "false-alarm", "%sa block of %zu bytes whose surroundings are untouched was reported: %s", which, n, text.substr(0, 200).c_str());
            return;
        }
        VF_CHECK(!text.empty(), "not-reported", "%sdamage %zu bytes before and %zu after a block of %zu bytes was not reported", which, before, after, n);
        Report r{};
        VF_CHECK(parse(text, r), "unreadable-report", "%sthe report is: %s", which, text.substr(0, 200).c_str());
        VF_CHECK(r.addr == fmt("%p", (const void*)p), "wrong-address", "%sthe report of %p names %s", which, (const void*)p, r.addr.c_str());
        VF_CHECK(r.size == n, "wrong-size", "%sthe report of a block of %zu bytes says %zu", which, n, r.size);
        VF_CHECK(before || text.find("Before") == std::string::npos, "undamaged-side", "%snothing before a block was modified, but the report names that side: %s", which, text.substr(0, 200).c_str());
        VF_CHECK(after || text.find("After") == std::string::npos, "undamaged-side", "%snothing after a block was modified, but the report names that side: %s", which, text.substr(0, 200).c_str());
        VF_CHECK(r.before == before, "wrong-distance", "%sdamage %zu bytes before is reported as %zu", which, before, r.before);
        VF_CHECK(r.after == after, "wrong-distance", "%sdamage %zu bytes after is reported as %zu (block of %zu bytes)", which, after, r.after, n);
        size_t reports = 0;
        for (size_t at = 0; (at = text.find("0x", at)) != std::string::npos; at++) reports++;
        VF_CHECK(reports == 1, "reported-twice", "%sone damaged block led to %zu reports", which, reports);
    }

    void run_case(uint64_t idx, Rng& rng)
    {
        if (entries().empty()) build();
        const Entry& e = entries()[idx % entries().size()];
        detail("%s", e.name.c_str());
        stat(("cases:" + e.name).c_str());
        leafs::World& w = leafs::world();
        w.reset();
        w.failSeed = rng.next();
        if (rng.chance(1, 4)) w.cfg[0].failNum = uint32_t(rng.below(20000));
        auto a = e.make();
        const size_t u = a->unit();
        std::vector<Held> held;
        const int reach = e.nested ? 128 : 64;
        const size_t ops = e.big ? rng.range(4, 12) : rng.range(10, 150);
        uint64_t trace = hash_str(e.name.c_str()), served = 0;
        const unsigned damage = unsigned(rng.below(90));

        auto scribble = [&](Held& h) {
            auto poke = [&](ptrdiff_t at, unsigned char v) {
                h.original.emplace(at, h.p[at]);
                h.p[at] = v;
            };
            auto place = [&]() -> ptrdiff_t {
                ptrdiff_t d = rng.chance(1, 3) ? (rng.chance(1, 2) ? 0 : reach - 1) : ptrdiff_t(rng.below(size_t(reach)));
                if (rng.chance(1, 6)) d = ptrdiff_t(rng.below(4)) + 62 < reach ? ptrdiff_t(62 + rng.below(2)) : d;
                return rng.chance(1, 2) ? -1 - d : ptrdiff_t(h.n) + d;
            };
            switch (rng.below(6))
            {
            case 0: { const ptrdiff_t at = place(); poke(at, h.p[at] ^ (1 << rng.below(8))); break; }             // a single bit
            case 1: { const ptrdiff_t at = place(); poke(at, (unsigned char)(rng.next())); break; }                // any value, also the same one
            case 2: for (size_t k = rng.range(1, 20); k-- > 0;) { const auto at = place(); poke(at, (unsigned char)(rng.next())); } break;
            case 3: { // a run from the block outwards
                const size_t k = rng.range(1, size_t(reach));
                const bool after = rng.chance(1, 2);
                for (size_t j = 0; j < k; j++) poke(after ? ptrdiff_t(h.n + j) : -1 - ptrdiff_t(j), 0);
                break;
            }
            case 4: { const ptrdiff_t at = place(); const unsigned char v = h.p[at]; poke(at, (unsigned char)(~v)); if (rng.chance(1, 2)) h.p[at] = v; break; } // and back
            default: for (auto& kv : h.original) if (rng.chance(2, 3)) h.p[kv.first] = kv.second; break;           // repaired
            }
            stat("edits");
        };
        auto give_back = [&](size_t k) {
            Held h = held[k];
            held.erase(held.begin() + ptrdiff_t(k));
            size_t before[2] = { 0, 0 }, after[2] = { 0, 0 };
            for (auto& kv : h.original)
            {
                if (h.p[kv.first] == kv.second) continue;
                size_t d = kv.first < 0 ? size_t(-kv.first) : size_t(kv.first) - h.n + 1;
                const int ring = d > 64;
                if (ring) d -= 64;
                size_t& m = kv.first < 0 ? before[ring] : after[ring];
                if (d > m) m = d;
            }
            const unsigned char* p = h.p;
            a->deallocate(h.p, h.n);
            judge(a->take(), p, h.n, before[0], after[0], "");
            if (e.nested) judge(a->takeInner(), p - 64, h.n + 128, before[1], after[1], "inner: ");
            if (before[0] || after[0]) stat("damaged");
            if (before[0] == 64) stat("damaged_at_64_before");
            if (after[0] == 64) stat("damaged_at_64_after");
            if (before[0] && after[0]) stat("damaged_both_sides");
            if (!h.original.empty() && !before[0] && !after[0]) stat("damage_undone");
            if (h.original.empty()) stat("untouched");
            trace = mix(trace ^ (before[0] * 100 + after[0]));
            VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s", w.error.c_str());
        };
        for (size_t i = 0; i < ops; i++)
        {
            if (held.empty() || rng.chance(2, 5))
            {
                size_t n;
                if (e.big) { n = (size_t(1) << 32) + rng.below(size_t(1) << 30); n -= rng.below(3); }
                else switch (rng.below(4))
                {
                case 0: n = rng.below(20); break;
                case 1: n = rng.below(300); break;
                default: n = rng.below(e.typical + 1); break;
                }
                n = n / u * u;
                void* p = a->allocate(n);
                VF_CHECK(a->take().empty() && a->takeInner().empty(), "false-alarm", "allocating reported something");
                trace = mix(trace ^ n);
                if (!p) { stat("refused"); continue; }
                Held h{ static_cast<unsigned char*>(p), n, {} };
                if (n < (1 << 21)) std::memset(p, int(rng.next()), n);
                else { h.p[0] = 1; h.p[n - 1] = 1; stat("blocks_over_4GB"); }
                held.push_back(h);
                served++;
            }
            else if (rng.chance(1, 2))
            {
                Held& h = rng.pick(held);
                if (rng.below(100) < damage) scribble(h);
                else if (h.n)
                {
                    { const size_t at = rng.below(h.n); h.p[at] = (unsigned char)(rng.next()); }
                    h.p[0] = 3;
                    h.p[h.n - 1] = 4;
                }
            }
            else give_back(rng.below(held.size()));
            if (held.size() > 12) give_back(rng.below(held.size()));
        }
        while (!held.empty()) give_back(rng.below(held.size()));
        if (served) sig(trace);
        digest(trace);
        sample(fmt("%s: %zu operations, %llu blocks", e.name.c_str(), ops, (unsigned long long)served));
        a.reset();
        VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s", w.error.c_str());
        VF_CHECK(w.liveBlocks == 0 && w.droppedLive == 0, "not-returned", "%zu blocks remain outstanding at the sources", size_t(w.liveBlocks + w.droppedLive));
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c10", run_case); }
