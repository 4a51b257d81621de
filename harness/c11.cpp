// C11: the balance of bytes and objects reported by the leak-detecting allocator at destruction.
#include "leaf.h"
#include "subjects.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <functional>
#include <memory>
#include <sstream>
#include <sys/mman.h>

using namespace vf;

namespace
{
    struct Boom { int why; };
    int g_alive = 0;
    struct Obj
    {
        uint64_t a, b;
        explicit Obj(uint64_t v) : a(v), b(~v) { if (v % 5 == 0) throw Boom{ int(v) }; g_alive++; }
        ~Obj() { g_alive--; }
    };
    struct Plain { int v = 7; };

    struct OV
    {
        virtual ~OV() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual void construct(Obj* p, uint64_t v) = 0;
        virtual void destroy(Obj* p) = 0;
        virtual void construct(Plain* p) = 0;
        virtual void destroy(Plain* p) = 0;
        virtual std::unique_ptr<OV> move_out() { return nullptr; }
        virtual bool copies() { return false; } // another handle
        virtual bool drop() { return false; }   // one handle less; never the last
        virtual size_t unit() { return 1; }
        virtual bool objects() { return true; }
    };

    template<typename A, bool Moves, bool Copies>
    struct Raw : OV
    {
        std::vector<std::unique_ptr<A>> h;
        template<typename... S>
        explicit Raw(std::nullptr_t, S&... s) { h.emplace_back(new A(s...)); }
        explicit Raw(A&& o) { h.emplace_back(new A(std::move(o))); }
        A& a() { return *h[0]; }
        void* allocate(size_t n) override { return h.back()->allocate(n); }
        void deallocate(void* p, size_t n) override { a().deallocate(p, n); }
        void construct(Obj* p, uint64_t v) override { h.back()->construct(p, v); }
        void destroy(Obj* p) override { a().destroy(p); }
        void construct(Plain* p) override { h.back()->construct(p); }
        void destroy(Plain* p) override { a().destroy(p); }
        std::unique_ptr<OV> move_out() override
        {
            if constexpr (Moves) return std::unique_ptr<OV>(new Raw(std::move(a())));
            else return nullptr;
        }
        bool copies() override
        {
            if constexpr (Copies) { h.emplace_back(new A(a())); return true; }
            else return false;
        }
        bool drop() override
        {
            if (h.size() < 2) return false;
            h.erase(h.begin());
            return true;
        }
    };
    template<typename A>
    struct Typed : OV
    {
        A a;
        template<typename... S>
        explicit Typed(std::nullptr_t, S&... s) : a(s...) {}
        void* allocate(size_t n) override { return a.allocate(n / sizeof(Obj)); }
        void deallocate(void* p, size_t n) override { a.deallocate(static_cast<Obj*>(p), n / sizeof(Obj)); }
        void construct(Obj* p, uint64_t v) override { a.construct(p, v); }
        void destroy(Obj* p) override { a.destroy(p); }
        void construct(Plain* p) override { ::new (p) Plain; }
        void destroy(Plain*) override {}
        size_t unit() override { return sizeof(Obj); }
        bool objects() override { return false; }
    };

    struct huge
    {
        bool operator==(const huge&) const noexcept { return true; }
        bool operator!=(const huge&) const noexcept { return false; }
        void* allocate(size_t n) noexcept
        {
            if (n > (size_t(1) << 45)) return nullptr;
            void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            return p == MAP_FAILED ? nullptr : p;
        }
        void deallocate(void* p, size_t n) noexcept { munmap(p, n); }
    };

    struct Entry
    {
        std::string name;
        bool swapsBlocks;                // another instance may take back the blocks
        bool moves, big;
        std::function<std::unique_ptr<OV>(Sink&, std::ostringstream&)> make;
    };
    std::vector<Entry>& entries() { static auto* e = new std::vector<Entry>; return *e; }

    template<template<typename> class OvOf, typename Str>
    void more();

    template<typename Str>
    Str& which(Sink& a, std::ostringstream& b)
    {
        if constexpr (std::is_same_v<Str, Sink>) return a;
        else return b;
    }

    template<typename Str>
    void reg(const char* sn)
    {
        using namespace ktl;
        using LB = leafs::leaf<0, 0>;
        using LC = leafs::leaf<1, leafs::OWNS | leafs::MAXSZ | leafs::CTOR>;
        using LS = leafs::leaf<2, leafs::SHARED>;
        using LSC = leafs::leaf<3, leafs::SHARED | leafs::OWNS | leafs::CTOR>;
        auto add = [&](const char* n, bool swaps, bool moves, bool big, auto tag) {
            using X = typename decltype(tag)::type;
            entries().push_back({ fmt("%s on %s", n, sn), swaps, moves, big, [](Sink& a, std::ostringstream& b) { return std::unique_ptr<OV>(new X(nullptr, which<Str>(a, b))); } });
        };
        add("overflow<leaf>", false, true, false, std::common_type<Raw<overflow<LB, Str>, true, false>>());
        add("overflow<leaf ctor>", false, true, false, std::common_type<Raw<overflow<LC, Str>, true, false>>());
        add("overflow<shared leaf>", true, true, false, std::common_type<Raw<overflow<LS, Str>, true, false>>());
        add("overflow<shared leaf ctor>", true, true, false, std::common_type<Raw<overflow<LSC, Str>, true, false>>());
        add("overflow<mallocator>", true, true, false, std::common_type<Raw<overflow<mallocator, Str>, true, false>>());
        add("overflow<cascading<linear>>", false, true, false, std::common_type<Raw<overflow<cascading<linear_allocator<2048>>, Str>, true, false>>());
        add("overflow<linear>", false, false, false, std::common_type<Raw<overflow<linear_allocator<4096>, Str>, false, false>>());
        add("overflow<fallback<linear,shared leaf>>", false, false, false, std::common_type<Raw<overflow<fallback<linear_allocator<1024>, LS>, Str>, false, false>>());
        add("overflow<freelist<shared leaf>>", false, true, false, std::common_type<Raw<overflow<freelist<0, 600, LS>, Str>, true, false>>());
        add("threaded<overflow<leaf ctor>>", false, false, false, std::common_type<Raw<threaded<overflow<LC, Str>>, false, false>>());
        add("shared<overflow<leaf>>", false, true, false, std::common_type<Raw<shared<overflow<LB, Str>>, false, true>>());
        add("atomic_shared<threaded<overflow<leaf>>>", false, true, false, std::common_type<Raw<atomic_shared<threaded<overflow<LB, Str>>>, false, true>>());
        add("type<shared<overflow<leaf>>>", false, false, false, std::common_type<Typed<type_shared_overflow_allocator<Obj, LB, Str>>>());
        add("overflow<address space>", true, true, true, std::common_type<Raw<overflow<huge, Str>, true, false>>());
    }
    void build()
    {
        reg<Sink>("Sink");
        reg<std::ostream>("ostream");
    }

    // What was reported: number after each word
    struct Balance { int64_t bytes = 0, objects = 0; int lines = 0; bool negative = false; };
    Balance parse(const std::string& t)
    {
        Balance b;
        auto number = [&](const char* word, int64_t& into, int sign) {
            size_t at = 0;
            while ((at = t.find(word, at)) != std::string::npos)
            {
                size_t k = at;
                while (k < t.size() && t[k] != '-' && !isdigit((unsigned char)t[k]) && t[k] != '\n') k++;
                if (k < t.size() && t[k] != '\n') { into += sign * strtoll(t.c_str() + k, nullptr, 10); b.lines++; b.negative |= t[k] == '-'; }
                at += strlen(word);
            }
        };
        number("Allocated", b.bytes, 1);
        number("frees", b.bytes, -1);
        number("constructor", b.objects, 1);
        number("destructor", b.objects, -1);
        return b;
    }

    struct Held { char* p; size_t n; Obj* obj; Plain* plain; };

    void run_case(uint64_t idx, Rng& rng)
    {
        if (entries().empty()) build();
        const Entry& e = entries()[idx % entries().size()];
        detail("%s", e.name.c_str());
        stat(("cases:" + e.name).c_str());
        leafs::World& w = leafs::world();
        w.reset();
        w.failSeed = rng.next();
        for (int k = 0; k < 4; k++)
        {
            if (rng.chance(1, 3)) w.cfg[k].failNum = uint32_t(rng.below(40000));
            if (rng.chance(1, 3)) w.cfg[k].cap = rng.range(100, 4000);
        }
        Sink sink;
        std::ostringstream os;
        auto text = [&] {
            std::string r = sink.text + os.str();
            sink.text.clear();
            os.str("");
            return r;
        };
        // One or two allocators; the second takes back some of the first's blocks where it may
        const size_t count = e.swapsBlocks && rng.chance(1, 2) ? 2 : 1;
        std::vector<std::unique_ptr<OV>> as;
        std::vector<int64_t> bytes(count, 0), objects(count, 0);
        for (size_t k = 0; k < count; k++) as.push_back(e.make(sink, os));
        std::vector<std::unique_ptr<OV>> ghosts; // moved-from
        const size_t u = as[0]->unit();
        std::vector<std::pair<Held, size_t>> held;
        uint64_t trace = hash_str(e.name.c_str());
        g_alive = 0;
        const bool manyObjects = rng.chance(1, 300);
        const size_t ops = e.big ? rng.range(4, 20) : rng.range(5, 150);
        unsigned leakBias = unsigned(rng.below(100));
        auto quiet = [&](const char* what) {
            const std::string t = text();
            const Balance b = parse(t);
            VF_CHECK(b.lines == 0, "reported-too-early", "%s: %s", what, t.substr(0, 200).c_str());
        };
        auto give_back = [&](size_t k, bool anywhere) {
            auto [h, owner] = held[k];
            held.erase(held.begin() + ptrdiff_t(k));
            const size_t at = anywhere ? rng.below(count) : owner;
            if (h.obj) { as[at]->destroy(h.obj); objects[at]--; }
            if (h.plain) { as[at]->destroy(h.plain); if (as[at]->objects()) objects[at]--; }
            as[at]->deallocate(h.p, h.n);
            bytes[at] -= int64_t(h.n);
            if (at != owner) stat("returned_at_the_other");
        };
        for (size_t i = 0; i < ops; i++)
        {
            const size_t k = rng.below(count);
            switch (rng.below(12))
            {
            case 0: case 1: case 2: case 3:
            {
                size_t n = e.big ? rng.next() >> rng.range(20, 40) : rng.chance(1, 10) ? SIZE_MAX - rng.below(200) : rng.below(rng.chance(1, 2) ? 40 : 500);
                n = n / u * u;
                void* p = as[k]->allocate(n);
                trace = mix(trace ^ n);
                if (!p) { stat("failed_requests"); break; }
                bytes[k] += int64_t(n);
                stat_max("max:most_bytes_outstanding", uint64_t(bytes[k] > 0 ? bytes[k] : 0));
                held.push_back({ Held{ static_cast<char*>(p), n, nullptr, nullptr }, k });
                stat("allocations");
                break;
            }
            case 4: case 5: case 6:
                if (!held.empty()) give_back(rng.below(held.size()), true);
                break;
            case 7: case 8:
            {
                if (held.empty()) break;
                auto& [h, owner] = rng.pick(held);
                if (h.obj || h.plain || h.n < sizeof(Obj)) break;
                if (rng.chance(1, 4)) { as[owner]->construct(reinterpret_cast<Plain*>(h.p)); h.plain = reinterpret_cast<Plain*>(h.p); if (as[owner]->objects()) objects[owner]++; break; }
                const uint64_t v = rng.next();
                const int alive = g_alive;
                bool threw = false;
                try { as[owner]->construct(reinterpret_cast<Obj*>(h.p), v); }
                catch (const Boom&) { threw = true; stat("throwing_constructors"); }
                VF_CHECK(threw == (v % 5 == 0) && g_alive == alive + !threw, "construction-lost", "an object was not constructed exactly once");
                if (!threw) { objects[owner]++; h.obj = reinterpret_cast<Obj*>(h.p); stat("constructions"); }
                break;
            }
            case 9:
            {
                if (held.empty()) break;
                auto& [h, owner] = rng.pick(held);
                if (h.obj) { const size_t at = rng.below(count); as[at]->destroy(h.obj); objects[at]--; h.obj = nullptr; }
                break;
            }
            case 10:
                if (e.moves && !as[k]->copies())
                {
                    auto b = as[k]->move_out();
                    if (!b) break;
                    stat("moves");
                    const bool keep = rng.chance(1, 2);
                    std::swap(as[k], b);
                    if (keep) ghosts.push_back(std::move(b));
                    else { b.reset(); quiet("destroying a moved-from allocator"); }
                }
                else if (e.moves) stat("handles");
                break;
            default:
                if (rng.chance(1, 2) && as[k]->drop()) { quiet("destroying a handle"); break; }
                // damage outside a block
                if (!held.empty() && !e.big && rng.chance(1, 2))
                {
                    auto& [h, owner] = rng.pick(held);
                    if (rng.chance(1, 2)) h.p[-1 - ptrdiff_t(rng.below(64))] ^= 1;
                    else h.p[h.n + rng.below(64)] ^= 1;
                    stat("damages");
                }
            }
        }
        if (manyObjects && !held.empty() && as[0]->objects())
        {
            auto* p = static_cast<Plain*>(::operator new(sizeof(Plain)));
            for (int i = 0; i < 70000; i++) as[0]->construct(p);
            objects[0] += 70000;
            ::operator delete(p);
            stat("many_objects");
        }
        // Return some or all
        while (!held.empty() && rng.below(100) >= leakBias / 8) give_back(rng.below(held.size()), rng.chance(1, 2));
        quiet("using the allocator");
        ghosts.clear();
        quiet("destroying moved-from allocators");
        for (size_t k = 0; k < count; k++)
        {
            while (as[k]->drop()) quiet("destroying a handle");
            // what is left in a non-shared source goes with it; in a shared one it is returned below
            as[k].reset();
            const std::string t = text();
            const Balance b = parse(t);
            VF_CHECK(b.bytes == bytes[k], "wrong-bytes", "%lld bytes are outstanding but the report says %lld: %s", (long long)bytes[k], (long long)b.bytes, t.substr(0, 300).c_str());
            VF_CHECK(b.objects == objects[k], "wrong-objects", "%lld objects are not destroyed but the report says %lld: %s", (long long)objects[k], (long long)b.objects, t.substr(0, 300).c_str());
            VF_CHECK(b.lines == (bytes[k] != 0) + (objects[k] != 0), "reported-twice", "%d amounts are reported for %lld bytes and %lld objects: %s", b.lines, (long long)bytes[k], (long long)objects[k], t.substr(0, 300).c_str());
            VF_CHECK(!b.negative, "wrong-direction", "an amount is reported as negative (%lld bytes, %lld objects are outstanding): %s", (long long)bytes[k], (long long)objects[k], t.substr(0, 300).c_str());
            VF_CHECK(!t.empty() == (b.lines > 0), "false-report", "there is nothing to report but: %s", t.substr(0, 200).c_str());
            stat(bytes[k] > 0 ? "leaks" : bytes[k] < 0 ? "excess_returns" : "balanced");
            stat(objects[k] > 0 ? "undestroyed" : objects[k] < 0 ? "excess_destructions" : "objects_balanced");
            if (bytes[k] >= (int64_t(1) << 32)) stat("leaks_over_4GB");
            trace = mix(trace ^ uint64_t(bytes[k]) ^ (uint64_t(objects[k]) << 40));
        }
        // returned to where they are from, so that nothing piles up
        for (auto& hk : held)
        {
            const Held& h = hk.first;
            if (e.big) munmap(h.p - 64, h.n + 128);
            else if (e.name.find("mallocator") != std::string::npos) free(h.p - 64);
        }
        sig(trace);
        digest(trace);
        sample(fmt("%s: %zu operations, %lld bytes and %lld objects outstanding at the end", e.name.c_str(), ops, (long long)bytes[0], (long long)objects[0]));
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c11", run_case); }
