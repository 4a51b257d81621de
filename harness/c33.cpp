// C33: containers which own an allocator of their own. The allocator lives inside the container and is neither copied nor moved once it is
// there, so allocators whose state cannot be shared (arenas inside the object, free lists, cascades) can be used as they are.
#include "leaf.h"
#include "subjects.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <set>

using namespace vf;
using namespace ktl;

namespace own
{
    // ---------------------------------------------------------------------------------------- what is recorded
    struct Block { const void* by; size_t bytes; };

    struct Record
    {
        std::string key, msg;
        std::multimap<uintptr_t, Block> live; // an empty block may lie where another one begins
        std::set<const void*> instances;
        uintptr_t lo = 0, hi = 0;    // where the container lies, once it is made
        bool settled = false;        // the container is made: no allocator may be copied any more
        uint64_t requests = 0, returns = 0, bytes = 0, copies = 0;
        void bad(const char* k, std::string m) { if (msg.empty()) { key = k; msg = std::move(m); } }
        bool inside(const void* p) const { return uintptr_t(p) >= lo && uintptr_t(p) < hi; }
        void reset() { *this = Record(); }
    };
    inline Record& rec() { static auto* r = new Record; return *r; }

    inline void took(const void* by, void* p, size_t n)
    {
        Record& r = rec();
        if (!r.inside(by)) r.bad("outside-request", fmt("%zu bytes were requested from an allocator which is not the one of the container", n));
        if (!p && n == 0) return;
        if (!p) { r.bad("refused", fmt("%zu bytes were refused though there is room", n)); return; }
        r.requests++;
        r.bytes += n;
        for (auto& b : r.live)
            if (n && b.second.bytes && b.first < uintptr_t(p) + n && uintptr_t(p) < b.first + b.second.bytes) r.bad("overlap", "a block overlaps one which is outstanding");
        r.live.insert({ uintptr_t(p), { by, n } });
    }

    inline void gave(const void* by, void* p, size_t n)
    {
        Record& r = rec();
        if (!r.inside(by)) r.bad("outside-return", fmt("%zu bytes were returned to an allocator which is not the one of the container", n));
        auto it = r.live.find(uintptr_t(p));
        for (auto i = it; i != r.live.end() && i->first == uintptr_t(p); ++i)
            if (i->second.bytes == n) it = i;
        if (it == r.live.end()) { r.bad("returned-unknown", fmt("a block which is not outstanding (%zu bytes) was returned", n)); return; }
        if (it->second.by != by) r.bad("returned-to-another", "a block was returned to another instance than the one it is from");
        if (it->second.bytes != n) r.bad("returned-differently", fmt("a block of %zu bytes was returned as %zu", it->second.bytes, n));
        r.live.erase(it);
        r.returns++;
    }

    // A raw allocator which can be neither copied nor moved, and knows where it is
    template<typename A>
    class fixed
    {
        A m_Inner;
    public:
        fixed() { rec().instances.insert(this); }
        fixed(const fixed&) = delete;
        fixed& operator=(const fixed&) = delete;
        ~fixed() { rec().instances.erase(this); }
        void* allocate(size_t n)
        {
            void* p = m_Inner.allocate(n);
            took(this, p, n);
            return p;
        }
        void deallocate(void* p, size_t n)
        {
            gave(this, p, n);
            m_Inner.deallocate(p, n);
        }
        bool operator==(const fixed& o) const noexcept { return this == &o; }
        bool operator!=(const fixed& o) const noexcept { return this != &o; }
    };

    // A raw allocator which can be copied: the copies are counted, and each has blocks of its own
    template<typename A>
    class copied
    {
        A m_Inner;
        void made() { rec().instances.insert(this); }
        void another(const char* how)
        {
            rec().copies++;
            if (rec().settled) rec().bad("allocator-copied", fmt("the allocator of a container was %s after it was passed in", how));
            made();
        }
    public:
        template<typename... Args, typename = std::enable_if_t<std::is_constructible_v<A, Args&&...>>>
        explicit copied(Args&&... args) : m_Inner(std::forward<Args>(args)...) { made(); }
        copied(const copied& o) noexcept : m_Inner(o.m_Inner) { another("copied"); }
        copied(copied& o) noexcept : m_Inner(static_cast<const A&>(o.m_Inner)) { another("copied"); }
        copied& operator=(const copied&) = delete;
        ~copied() { rec().instances.erase(this); }
        void* allocate(size_t n)
        {
            void* p = m_Inner.allocate(n);
            took(this, p, n);
            return p;
        }
        void deallocate(void* p, size_t n)
        {
            gave(this, p, n);
            m_Inner.deallocate(p, n);
        }
        bool operator==(const copied& o) const noexcept { return this == &o; }
        bool operator!=(const copied& o) const noexcept { return this != &o; }
    };

    // ---------------------------------------------------------------------------------------- element types
    template<typename T> struct traits;

    template<> struct traits<int>
    {
        using key = uint32_t;
        static int make(uint32_t v) { return int(v); }
        static uint32_t value(const int& x) { return uint32_t(x); }
    };
    struct P24 { uint32_t v; uint32_t pad[5]; };
    template<> struct traits<P24>
    {
        static P24 make(uint32_t v) { P24 p; p.v = v; for (auto& x : p.pad) x = v * 31; return p; }
        static uint32_t value(const P24& x) { for (auto& y : x.pad) if (y != x.v * 31) return ~x.v; return x.v; }
    };
    struct alignas(16) P64 { uint64_t v[8]; };
    template<> struct traits<P64>
    {
        static P64 make(uint32_t v) { P64 p; for (int i = 0; i < 8; i++) p.v[i] = uint64_t(v) * (i + 1); return p; }
        static uint32_t value(const P64& x) { for (int i = 0; i < 8; i++) if (x.v[i] != x.v[0] * (i + 1)) return ~uint32_t(x.v[0]); return uint32_t(x.v[0]); }
    };

    // Elements of heaps: counted, and one which can only be moved
    inline long g_objects = 0;
    struct Counted
    {
        std::unique_ptr<uint32_t> p;
        explicit Counted(uint32_t v) : p(new uint32_t(v)) { g_objects++; }
        Counted(const Counted& o) : p(o.p ? new uint32_t(*o.p) : nullptr) { g_objects++; }
        Counted(Counted&& o) noexcept : p(std::move(o.p)) { g_objects++; }
        Counted& operator=(const Counted& o) { p.reset(o.p ? new uint32_t(*o.p) : nullptr); return *this; }
        Counted& operator=(Counted&& o) noexcept = default;
        ~Counted() { g_objects--; }
    };
    struct Movable
    {
        std::unique_ptr<uint32_t> p;
        explicit Movable(uint32_t v) : p(new uint32_t(v)) { g_objects++; }
        Movable(Movable&& o) noexcept : p(std::move(o.p)) { g_objects++; }
        Movable& operator=(Movable&& o) noexcept = default;
        ~Movable() { g_objects--; }
    };
    template<> struct traits<Counted>
    {
        static Counted make(uint32_t v) { return Counted(v); }
        static uint32_t value(const Counted& x) { return x.p ? *x.p : ~0u; }
    };
    template<> struct traits<Movable>
    {
        static Movable make(uint32_t v) { return Movable(v); }
        static uint32_t value(const Movable& x) { return x.p ? *x.p : ~0u; }
    };
    struct larger
    {
        template<typename T> bool operator()(const T& a, const T& b) const { return traits<T>::value(a) > traits<T>::value(b); }
    };

    // ---------------------------------------------------------------------------------------- one history
    struct Run
    {
        Rng& rng;
        std::string name;
        Sink* sink = nullptr;
        size_t room = 0, block = 0;  // what the allocator can serve in all, and at once: 0 if there is no limit
        uint64_t trace = 0;
        uint32_t next = 1;

        void checks(const char* what)
        {
            Record& r = rec();
            VF_CHECK(r.msg.empty(), r.key.c_str(), "%s: %s: %s", name.c_str(), what, r.msg.c_str());
            if (r.settled)
            {
                VF_CHECK(r.instances.size() == 1, "instances", "%s: %s: there are %zu allocators, not the one of the container", name.c_str(), what, r.instances.size());
                VF_CHECK(r.inside(*r.instances.begin()), "instances", "%s: %s: the allocator is not inside the container", name.c_str(), what);
            }
            auto& w = leafs::world();
            VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s: %s: %s", name.c_str(), what, w.error.c_str());
        }

        // Is there room for a container of so many elements to be made room for?
        bool can(size_t cap, size_t n, size_t unit)
        {
            const size_t most = (2 * cap + n + 8) * unit;
            if (block && most > block) return false;
            if (room && rec().bytes + most > room) return false;
            return cap + n < 600;
        }

        template<typename C>
        void storage(const C& c, const char* what)
        {
            checks(what);
            Record& r = rec();
            using T = std::remove_cv_t<std::remove_pointer_t<decltype(c.data())>>;
            VF_CHECK(r.live.size() <= 1, "kept", "%s: %s: the container holds %zu blocks", name.c_str(), what, r.live.size());
            if (c.size())
            {
                VF_CHECK(r.live.size() == 1, "no-storage", "%s: %s: there are elements, but no block", name.c_str(), what);
                auto& b = *r.live.begin();
                VF_CHECK(uintptr_t(c.data()) >= b.first && uintptr_t(c.data() + c.size()) <= b.first + b.second.bytes, "storage", "%s: %s: elements lie outside the block of the container", name.c_str(), what);
                VF_CHECK(uintptr_t(c.data()) % alignof(T) == 0, "misaligned", "%s: %s: the elements are misaligned", name.c_str(), what);
            }
            trace = mix(trace ^ c.size());
            trace = mix(trace ^ r.bytes);
        }
    };

    template<typename C> struct element { using type = std::remove_reference_t<decltype(*std::declval<C&>().data())>; };

    template<typename C, typename T>
    void same(Run& r, const C& c, const std::vector<uint32_t>& m, const char* what)
    {
        VF_CHECK(c.size() == m.size(), "elements", "%s: %s: %zu elements, expected %zu", r.name.c_str(), what, c.size(), m.size());
        VF_CHECK(c.empty() == m.empty(), "elements", "%s: %s: empty() is wrong", r.name.c_str(), what);
        for (size_t i = 0; i < m.size(); i++)
        {
            const uint32_t v = traits<T>::value(c[i]);
            VF_CHECK(v == m[i], "elements", "%s: %s: element %zu is %u, expected %u", r.name.c_str(), what, i, v, m[i]);
            r.trace = mix(r.trace ^ v);
        }
        stat("elements_compared", m.size());
        r.storage(c, what);
    }

    template<typename T>
    std::vector<T> batch(Run& r, size_t n, std::vector<uint32_t>& v)
    {
        std::vector<T> x;
        v.clear();
        for (size_t i = 0; i < n; i++)
        {
            v.push_back(r.next++);
            x.push_back(traits<T>::make(v.back()));
        }
        return x;
    }

    template<typename T, typename C>
    void on_vector(Run& r, C& c, std::vector<uint32_t>& m)
    {
        Rng& rng = r.rng;
        const char* what = "?";
        const size_t n = rng.chance(1, 4) ? rng.range(0, 40) : rng.range(0, 5);
        switch (rng.below(13))
        {
        case 0: case 1:
            what = "push_back";
            if (!r.can(c.capacity(), 1, sizeof(T))) return;
            m.push_back(r.next++);
            {
                const T t = traits<T>::make(m.back());
                c.push_back(t);
            }
            break;
        case 2:
            what = "push_back of a temporary";
            if (!r.can(c.capacity(), 1, sizeof(T))) return;
            m.push_back(r.next++);
            c.push_back(traits<T>::make(m.back()));
            break;
        case 3:
            what = "push_back of an own element";
            if (m.empty() || !r.can(c.capacity(), 1, sizeof(T))) return;
            {
                const size_t i = rng.below(m.size());
                m.push_back(m[i]);
                c.push_back(c[i]);
            }
            break;
        case 4:
            what = "push_back of a range";
            if (!r.can(c.capacity(), n, sizeof(T))) return;
            {
                std::vector<uint32_t> v;
                auto x = batch<T>(r, n, v);
                c.push_back(x.data(), x.data() + x.size());
                m.insert(m.end(), v.begin(), v.end());
            }
            break;
        case 5:
            what = "emplace_back";
            if (!r.can(c.capacity(), 1, sizeof(T))) return;
            m.push_back(r.next++);
            c.emplace_back(traits<T>::make(m.back()));
            break;
        case 6:
            what = "emplace";
            if (!r.can(c.capacity(), 1, sizeof(T))) return;
            {
                const size_t i = rng.range(0, m.size());
                m.insert(m.begin() + long(i), r.next++);
                c.emplace(c.begin() + i, traits<T>::make(m[i]));
            }
            break;
        case 7:
            what = "erase";
            if (m.empty()) return;
            {
                const size_t i = rng.below(m.size());
                m.erase(m.begin() + long(i));
                c.erase(c.begin() + i);
            }
            break;
        case 8:
            what = "erase of a range";
            if (m.empty()) return;
            {
                const size_t i = rng.below(m.size()), j = rng.range(i, m.size());
                m.erase(m.begin() + long(i), m.begin() + long(j));
                c.erase(c.begin() + i, c.begin() + j);
            }
            break;
        case 9:
            what = "pop_back";
            if (m.empty()) return;
            VF_CHECK(traits<T>::value(c.pop_back()) == m.back(), "elements", "%s: pop_back returned another element", r.name.c_str());
            m.pop_back();
            break;
        case 10:
            what = "resize";
            {
                const size_t to = rng.chance(1, 3) ? rng.range(0, m.size()) : m.size() + n;
                if (!r.can(c.capacity(), to, sizeof(T))) return;
                c.resize(to);
                const size_t from = std::min(m.size(), to);
                m.resize(to);
                for (size_t i = from; i < to; i++) { m[i] = r.next++; c[i] = traits<T>::make(m[i]); }
            }
            break;
        case 11:
            what = "reserve";
            if (!r.can(c.capacity(), n + 10, sizeof(T))) return;
            c.reserve(c.size() + n);
            VF_CHECK(c.capacity() >= c.size() + n, "capacity", "%s: reserve left less room than asked for", r.name.c_str());
            break;
        default:
            what = "writing";
            if (rng.chance(1, 10)) { what = "clear"; c.clear(); m.clear(); }
            else if (!m.empty()) { const size_t i = rng.below(m.size()); m[i] = r.next++; c[i] = traits<T>::make(m[i]); }
        }
        same<C, T>(r, c, m, what);
    }

    template<typename T, typename C>
    void on_array(Run& r, C& c, std::vector<uint32_t>& m)
    {
        Rng& rng = r.rng;
        const char* what = "?";
        const size_t n = rng.chance(1, 4) ? rng.range(0, 40) : rng.range(0, 6);
        switch (rng.below(5))
        {
        case 0: case 1:
            what = "resize";
            {
                const size_t to = rng.chance(1, 3) ? rng.range(0, m.size()) : m.size() + n;
                if (!r.can(to, 0, sizeof(T))) return;
                c.resize(to);
                const size_t from = std::min(m.size(), to);
                m.resize(to);
                for (size_t i = from; i < to; i++) { m[i] = r.next++; c[i] = traits<T>::make(m[i]); }
            }
            break;
        case 2:
            what = "assign";
            if (!r.can(n, 0, sizeof(T))) return;
            {
                auto x = batch<T>(r, n, m);
                c.assign(x.data(), x.data() + x.size());
            }
            break;
        default:
            what = "writing";
            if (!m.empty()) { const size_t i = rng.below(m.size()); m[i] = r.next++; c[i] = traits<T>::make(m[i]); }
        }
        same<C, T>(r, c, m, what);
    }

    template<typename C, typename T>
    void heap_order(Run& r, C& c, std::vector<uint32_t>& m, const char* what)
    {
        VF_CHECK(c.size() == m.size() && c.empty() == m.empty(), "elements", "%s: %s: %zu elements, expected %zu", r.name.c_str(), what, c.size(), m.size());
        std::vector<uint32_t> v;
        for (auto it = c.begin(); it != c.end(); ++it) v.push_back(traits<T>::value(*it));
        for (size_t i = 1; i < v.size(); i++)
            VF_CHECK(v[(i - 1) / 2] >= v[i], "order", "%s: %s: element %zu comes before its parent", r.name.c_str(), what, i);
        std::vector<uint32_t> a = v, b = m;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        VF_CHECK(a == b, "elements", "%s: %s: the elements are not the ones which were inserted", r.name.c_str(), what);
        if (!b.empty()) VF_CHECK(traits<T>::value(c.peek()) == b.back(), "order", "%s: %s: the root is %u, not %u", r.name.c_str(), what, traits<T>::value(c.peek()), b.back());
        for (uint32_t x : v) r.trace = mix(r.trace ^ x);
        stat("elements_compared", v.size());
        r.storage(c, what);
    }

    template<typename T, typename C>
    void on_heap(Run& r, C& c, std::vector<uint32_t>& m)
    {
        Rng& rng = r.rng;
        const char* what = "?";
        switch (rng.below(8))
        {
        case 0: case 1: case 2: case 3:
            what = "insert";
            if (!r.can(c.capacity(), 1, sizeof(T))) return;
            m.push_back(rng.chance(1, 4) ? uint32_t(rng.below(50)) : uint32_t(rng.below(1u << 30)));
            if constexpr (std::is_copy_constructible_v<T>)
            {
                if (rng.chance(1, 2)) { const T t = traits<T>::make(m.back()); c.insert(t); break; }
            }
            c.insert(traits<T>::make(m.back()));
            break;
        case 4: case 5:
            what = "pop";
            if (m.empty()) return;
            {
                auto it = std::max_element(m.begin(), m.end());
                const uint32_t v = traits<T>::value(c.pop());
                VF_CHECK(v == *it, "order", "%s: pop returned %u, not %u", r.name.c_str(), v, *it);
                m.erase(it);
            }
            break;
        case 6:
            what = "reserve";
            {
                const size_t n = rng.range(0, 30);
                if (!r.can(c.capacity(), n + 1, sizeof(T))) return;
                c.reserve(c.size() + n);
                VF_CHECK(c.capacity() >= c.size() + n, "capacity", "%s: reserve left less room than asked for", r.name.c_str());
            }
            break;
        default:
            if (rng.chance(1, 8)) { what = "clear"; c.clear(); m.clear(); }
            else if constexpr (std::is_copy_constructible_v<T>)
            {
                what = "insertion of an own element";
                if (m.empty() || !r.can(c.capacity(), 1, sizeof(T))) return;
                const size_t i = rng.below(m.size());
                const uint32_t v = traits<T>::value(*(c.begin() + i));
                c.insert(*(c.begin() + i));
                m.push_back(v);
            }
            else return;
        }
        heap_order<C, T>(r, c, m, what);
    }

    // ---------------------------------------------------------------------------------------- the allocators
    using L0 = leafs::leaf<0, leafs::OWNS | leafs::MAXSZ>;
    using L1 = leafs::leaf<1, leafs::OWNS | leafs::MAXSZ>;
    using S2 = leafs::leaf<2, leafs::OWNS | leafs::SHARED>;
    using S3 = leafs::leaf<3, leafs::OWNS | leafs::MAXSZ | leafs::SHARED>;

    struct Kind
    {
        std::string name;
        std::function<void(Run&)> run;
    };
    inline std::vector<Kind>& kinds() { static auto* k = new std::vector<Kind>; return *k; }

    enum Which { VECTOR, ARRAY, HEAP };

    template<Which W, typename T, typename A> struct container;
    template<typename T, typename A> struct container<VECTOR, T, A> { using type = trivial_vector<T, A>; };
    template<typename T, typename A> struct container<ARRAY, T, A> { using type = trivial_array<T, A>; };
    template<typename T, typename A> struct container<HEAP, T, A> { using type = binary_heap<T, larger, A>; };

    template<Which W, typename T, typename C>
    void step(Run& r, C& c, std::vector<uint32_t>& m)
    {
        if constexpr (W == VECTOR) on_vector<T>(r, c, m);
        else if constexpr (W == ARRAY) on_array<T>(r, c, m);
        else on_heap<T>(r, c, m);
    }

    template<Which W, typename T, typename C>
    void look(Run& r, C& c, std::vector<uint32_t>& m, const char* what)
    {
        if constexpr (W == HEAP) heap_order<C, T>(r, c, m, what);
        else same<C, T>(r, c, m, what);
    }

    // make() constructs the container in the memory it is given and says what it holds
    template<Which W, typename T, typename C, typename Make>
    void history(Run& r, Make make)
    {
        Record& q = rec();
        q.reset();
        auto& w = leafs::world();
        w.reset();
        g_objects = 0;
        Sink sink;
        r.sink = &sink;
        void* mem = ::operator new(sizeof(C), std::align_val_t(alignof(C)));
        q.lo = uintptr_t(mem);
        q.hi = q.lo + sizeof(C);
        std::vector<uint32_t> m;
        const unsigned form = unsigned(r.rng.next() >> 20);
        make(mem, form, m, sink);
        C& c = *static_cast<C*>(mem);
        q.settled = true;
        const uint64_t copies = q.copies;
        vf::detail("%s, construction", r.name.c_str());
        look<W, T>(r, c, m, "construction");
        const size_t steps = r.rng.range(5, 100);
        for (size_t n = 0; n < steps; n++)
        {
            vf::detail("%s, step %zu", r.name.c_str(), n);
            step<W, T>(r, c, m);
        }
        vf::detail("%s, destruction", r.name.c_str());
        VF_CHECK(q.copies == copies, "allocator-copied", "%s: the allocator was copied", r.name.c_str());
        c.~C();
        ::operator delete(mem, std::align_val_t(alignof(C)));
        VF_CHECK(q.msg.empty(), q.key.c_str(), "%s: destruction: %s", r.name.c_str(), q.msg.c_str());
        VF_CHECK(q.live.empty(), "memory-kept", "%s: %zu blocks were not returned", r.name.c_str(), q.live.size());
        VF_CHECK(q.instances.empty(), "instances", "%s: an allocator was not destroyed", r.name.c_str());
        VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s: destruction: %s", r.name.c_str(), w.error.c_str());
        VF_CHECK(w.liveBlocks == 0 && w.droppedLive == 0, "memory-kept", "%s: the sources of the allocator did not get everything back", r.name.c_str());
        VF_CHECK(g_objects == 0, "objects", "%s: %ld elements were not destroyed", r.name.c_str(), g_objects);
        VF_CHECK(sink.text.empty(), "report", "%s: the allocator reported: %.150s", r.name.c_str(), sink.text.c_str());
        stat("histories");
        stat("requests", q.requests);
        stat("returns", q.returns);
        if (q.requests > 1) stat("grown");
    }

    // Allocators which can only live where they are made
    template<Which W, typename T, typename A>
    void add_fixed(const char* name, size_t room, size_t block)
    {
        using C = typename container<W, T, type_allocator<T, fixed<A>>>::type;
        const std::string full = fmt("%s of %zu bytes, %s", W == VECTOR ? "vector" : W == ARRAY ? "array" : "heap", sizeof(T), name);
        kinds().push_back({ full, [=](Run& r) {
            r.room = room;
            r.block = block;
            history<W, T, C>(r, [&](void* mem, unsigned form, std::vector<uint32_t>& m, Sink&) {
                if constexpr (W == HEAP)
                {
                    if (form % 3 == 1) { ::new (mem) C(size_t(form % 5)); stat("made_with_capacity"); return; }
                    if constexpr (std::is_copy_constructible_v<T>)
                        if (form % 3 == 2) { m = { 7, 3, 9, 4 }; ::new (mem) C({ traits<T>::make(7), traits<T>::make(3), traits<T>::make(9), traits<T>::make(4) }); stat("made_with_elements"); return; }
                }
                ::new (mem) C();
            });
            stat("own_allocator");
        } });
    }

    // Allocators which are passed in, once
    template<Which W, typename T, typename A, bool Sunk>
    void add_copied(const char* name, size_t room, size_t block)
    {
        using Alloc = type_allocator<T, copied<A>>;
        using C = typename container<W, T, Alloc>::type;
        const std::string full = fmt("%s of %zu bytes, %s passed in", W == VECTOR ? "vector" : W == ARRAY ? "array" : "heap", sizeof(T), name);
        kinds().push_back({ full, [=](Run& r) {
            r.room = room;
            r.block = block;
            history<W, T, C>(r, [&](void* mem, unsigned form, std::vector<uint32_t>& m, Sink& sink) {
                auto go = [&](const Alloc& a) {
                    const size_t n = (form >> 4) % 4;
                    const T v = traits<T>::make(5);
                    if constexpr (W == HEAP)
                    {
                        switch (form % 3)
                        {
                        case 0: ::new (mem) C(a); break;
                        case 1: ::new (mem) C(n, a); break;
                        default: m = { 5, 8, 5 }; ::new (mem) C({ v, traits<T>::make(8), v }, a); break;
                        }
                    }
                    else
                    {
                        const T x[3] = { traits<T>::make(11), traits<T>::make(12), traits<T>::make(13) };
                        switch (form % 5)
                        {
                        case 0: ::new (mem) C(a); break;
                        case 1:
                        {
                            C* c = ::new (mem) C(n, a);
                            for (size_t i = 0; i < n; i++) { m.push_back(uint32_t(i)); (*c)[i] = traits<T>::make(uint32_t(i)); }
                            break;
                        }
                        case 2: m.assign(n, 5); ::new (mem) C(n, v, a); break;
                        case 3: m = { 5, 11, 12 }; ::new (mem) C({ v, x[0], x[1] }, a); break;
                        default: m = { 11, 12, 13 }; m.resize(n); ::new (mem) C(x, x + n, a); break;
                        }
                    }
                };
                if constexpr (Sunk) go(Alloc(sink));
                else go(Alloc());
            });
            stat("passed_in");
        } });
    }

    template<Which W, typename T>
    void kinds_of()
    {
        add_fixed<W, T, linear_allocator<20000>>("linear_allocator", 19000, 0);
        add_fixed<W, T, freelist<0, 2048, L0>>("freelist", 0, 2048);
        add_fixed<W, T, cascading<linear_allocator<6000>>>("cascading<linear_allocator>", 0, 5900);
        add_fixed<W, T, cascading<L0>>("cascading", 0, 0);
        add_fixed<W, T, fallback<linear_allocator<700>, L0>>("fallback<linear_allocator>", 0, 0);
        add_fixed<W, T, segragator<256, freelist<0, 256, L0>, cascading<L1>>>("segragator<freelist, cascading>", 0, 0);
        add_fixed<W, T, threaded<linear_allocator<16000>>>("threaded<linear_allocator>", 15500, 0);
        add_fixed<W, T, fallback<freelist<0, 128, L0>, fallback<linear_allocator<512>, L1>>>("fallback<freelist, fallback<linear_allocator>>", 0, 0);
        add_fixed<W, T, threaded<cascading<freelist<0, 4096, L0>>>>("threaded<cascading<freelist>>", 0, 4096);
        if constexpr (std::is_copy_constructible_v<T>)
        {
            add_copied<W, T, S2, false>("source", 0, 0);
            add_copied<W, T, overflow<S3, Sink>, true>("overflow", 0, 0);
            add_copied<W, T, overflow<mallocator, Sink>, true>("overflow<mallocator>", 0, 0);
            add_copied<W, T, shared<linear_allocator<20000>>, false>("shared<linear_allocator>", 19000, 0);
            add_copied<W, T, segragator<128, S2, S3>, false>("segragator", 0, 0);
            add_copied<W, T, fallback<S2, S3>, false>("fallback", 0, 0);
        }
    }

    void vector_int();
    void vector_24();
    void vector_64();
    void array_int();
    void array_24();
    void array_64();
    void heap_int();
    void heap_24();
    void heap_counted();
    void heap_movable();
}

// The program is built in parts, all of which are this file
#if !defined(PART)
static void build()
{
    own::vector_int();
    own::vector_24();
    own::vector_64();
    own::array_int();
    own::array_24();
    own::array_64();
    own::heap_int();
    own::heap_24();
    own::heap_counted();
    own::heap_movable();
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (own::kinds().empty()) build();
    const auto& k = own::kinds()[idx % own::kinds().size()];
    own::Run r{ rng, k.name };
    k.run(r);
    sig(mix(r.trace ^ hash_str(k.name.c_str())));
    digest(r.trace);
    if (idx < own::kinds().size()) sample(k.name);
    stat(("cases:" + k.name).c_str());
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c33", run_case); }
#elif PART == 0
void own::vector_int() { kinds_of<VECTOR, int>(); }
#elif PART == 1
void own::vector_24() { kinds_of<VECTOR, P24>(); }
#elif PART == 2
void own::vector_64() { kinds_of<VECTOR, P64>(); }
#elif PART == 3
void own::array_int() { kinds_of<ARRAY, int>(); }
#elif PART == 4
void own::array_24() { kinds_of<ARRAY, P24>(); }
#elif PART == 5
void own::array_64() { kinds_of<ARRAY, P64>(); }
#elif PART == 6
void own::heap_int() { kinds_of<HEAP, int>(); }
#elif PART == 7
void own::heap_24() { kinds_of<HEAP, P24>(); }
#elif PART == 8
void own::heap_counted() { kinds_of<HEAP, Counted>(); }
#else
void own::heap_movable() { kinds_of<HEAP, Movable>(); }
#endif
