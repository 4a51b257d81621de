// What the container programs share: an allocator that keeps a ledger, element types, and the modes.
#pragma once
#include "leaf.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <cstring>
#include <memory>
#include <type_traits>

namespace cont
{
    // ------------------------------------------------------------------------------------------ modes
    struct Modes { bool values = true, ledger = true, life = true; int mix = 0; const char* name = "all"; };

    inline Modes& mode()
    {
        static Modes m = [] {
            Modes r;
            const char* e = getenv("VF_MODE");
            if (!e) return r;
            r.values = r.ledger = r.life = false;
            r.name = e;
            if (!strcmp(e, "values")) r.values = true;
            else if (!strcmp(e, "copies")) { r.values = true; r.mix = 1; }
            else if (!strcmp(e, "ledger")) { r.ledger = true; r.mix = 2; }
            else if (!strcmp(e, "life")) r.life = true;
            else if (!strcmp(e, "none")) {}
            else if (!strcmp(e, "all")) r.values = r.ledger = r.life = true;
            else { fprintf(stderr, "unknown mode\n"); _exit(3); }
            return r;
        }();
        return m;
    }

    // ------------------------------------------------------------------------------------------ ledger
    struct Given { int id; size_t count; size_t bytes; };

    struct Ledger
    {
        std::map<uintptr_t, Given> live;
        uint64_t allocs = 0, frees = 0, zero = 0;
        bool nullForZero = false;
        int nextSelected = 1000;
        std::map<uintptr_t, std::pair<int, size_t>> objects;  // constructed through an allocator: which, size
        uint64_t constructed = 0, destroyed = 0;
        std::string key, msg;
        void bad(const char* k, std::string m) { if (msg.empty()) { key = k; msg = std::move(m); } }
        void reset()
        {
            for (auto& kv : live) ::operator delete(reinterpret_cast<void*>(kv.first));
            live.clear();
            objects.clear();
            key.clear();
            msg.clear();
            allocs = frees = zero = constructed = destroyed = 0;
            nextSelected = 1000;
        }
    };

    inline Ledger& ledger()
    {
        static Ledger* l = new Ledger;
        return *l;
    }

    inline void* take(int id, size_t count, size_t unit)
    {
        Ledger& l = ledger();
        if (count == 0)
        {
            l.zero++;
            if (l.nullForZero) return nullptr;
        }
        const size_t bytes = count * unit;
        if (count > (size_t(1) << 30) / unit) { l.bad("unreasonable-request", vf::fmt("%zu elements of %zu bytes were requested", count, unit)); }
        void* p = ::operator new(bytes ? bytes : 1);
        l.live[reinterpret_cast<uintptr_t>(p)] = { id, count, bytes };
        l.allocs++;
        return p;
    }

    inline void give(int id, void* p, size_t count)
    {
        Ledger& l = ledger();
        auto it = l.live.find(reinterpret_cast<uintptr_t>(p));
        if (it == l.live.end())
        {
            l.bad("returned-unknown-block", vf::fmt("allocator %d was given a block which is not outstanding (%zu elements)", id, count));
            return;
        }
        if (it->second.id != id) l.bad("returned-to-wrong-allocator", vf::fmt("a block of allocator %d was returned to allocator %d", it->second.id, id));
        if (it->second.count != count) l.bad("returned-with-wrong-count", vf::fmt("a block of %zu elements was returned as %zu", it->second.count, count));
        l.live.erase(it);
        l.frees++;
        ::operator delete(p);
    }

    enum : int { PLAIN = 0, CTOR = 1, SELECT = 2 };

    template<typename T, int Kind = PLAIN>
    struct rec
    {
        using value_type = T;
        int id = 0;
        rec() noexcept = default;
        explicit rec(int i) noexcept : id(i) {}
        template<typename U> rec(const rec<U, Kind>& o) noexcept : id(o.id) {}
        template<typename U> struct rebind { using other = rec<U, Kind>; };
        T* allocate(size_t n) { return static_cast<T*>(take(id, n, sizeof(T))); }
        void deallocate(T* p, size_t n) noexcept { give(id, p, n); }
        template<typename U, typename... A, int K = Kind>
        std::enable_if_t<K == CTOR, void> construct(U* p, A&&... a)
        {
            Ledger& l = ledger();
            l.constructed++;
            if (!l.objects.emplace(reinterpret_cast<uintptr_t>(p), std::make_pair(id, sizeof(U))).second)
                l.bad("constructed-twice", "an object was constructed through the allocator where one is alive");
            ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
        }
        template<typename U, int K = Kind>
        std::enable_if_t<K == CTOR, void> destroy(U* p)
        {
            Ledger& l = ledger();
            l.destroyed++;
            auto it = l.objects.find(reinterpret_cast<uintptr_t>(p));
            if (it == l.objects.end()) l.bad("destroyed-unconstructed", "an object was destroyed through the allocator which was not constructed through it");
            else
            {
                if (it->second.first != id) l.bad("destroyed-by-wrong-allocator", vf::fmt("an object of allocator %d was destroyed through allocator %d", it->second.first, id));
                l.objects.erase(it);
            }
            p->~U();
        }
        template<int K = Kind>
        rec select_on_container_copy_construction() const noexcept
        {
            return Kind == SELECT ? rec(ledger().nextSelected++) : *this;
        }
        bool operator==(const rec& o) const noexcept { return id == o.id; }
        bool operator!=(const rec& o) const noexcept { return id != o.id; }
    };

    // Allocators of the library over a recording source: number k of them
    constexpr unsigned LF = leafs::OWNS;
    using SharedRaw = ktl::shared<leafs::leaf<0, LF>, ktl::notomic>;
    using CtorRaw = ktl::shared<leafs::leaf<1, LF | leafs::CTOR>, ktl::notomic>;
    using RefRaw = ktl::reference<leafs::leaf<2, LF>>;

    template<typename T> using shared_alloc = ktl::type_allocator<T, SharedRaw>;
    template<typename T> using ctor_alloc = ktl::type_allocator<T, CtorRaw>;
    template<typename T> using ref_alloc = ktl::type_allocator<T, RefRaw>;
    template<typename T> using heap_alloc = ktl::type_allocator<T, ktl::mallocator>;

    // The k-th allocator of a type (they exist for the duration of a case)
    template<typename A> struct Pool;
    template<typename T, int K> struct Pool<rec<T, K>>
    {
        static constexpr bool ledgered = true;
        static constexpr bool defaulted = true;
        static void open() {}
        static void close() {}
        static rec<T, K> get(size_t k) { return rec<T, K>(int(k)); }
    };
    template<typename T> struct Pool<std::allocator<T>>
    {
        static constexpr bool ledgered = false;
        static constexpr bool defaulted = true;
        static void open() {}
        static void close() {}
        static std::allocator<T> get(size_t) { return {}; }
    };
    template<typename T> struct Pool<heap_alloc<T>>
    {
        static constexpr bool ledgered = false;
        static constexpr bool defaulted = true;
        static void open() {}
        static void close() {}
        static heap_alloc<T> get(size_t) { return {}; }
    };
    template<typename T, typename L> struct Pool<ktl::type_allocator<T, ktl::shared<L, ktl::notomic>>>
    {
        using A = ktl::type_allocator<T, ktl::shared<L, ktl::notomic>>;
        static constexpr bool ledgered = false;
        static constexpr bool defaulted = true;
        static std::vector<A>& all() { static std::vector<A> v; return v; }
        static void open() { for (int i = 0; i < 3; i++) all().emplace_back(); }
        static void close() { all().clear(); }
        static A get(size_t k) { return all()[k % 3]; }
    };
    template<typename T> struct Pool<ref_alloc<T>>
    {
        using A = ref_alloc<T>;
        static constexpr bool ledgered = false;
        static constexpr bool defaulted = false;
        static std::vector<std::unique_ptr<leafs::leaf<2, LF>>>& all() { static std::vector<std::unique_ptr<leafs::leaf<2, LF>>> v; return v; }
        static void open() { for (int i = 0; i < 3; i++) all().emplace_back(new leafs::leaf<2, LF>); }
        static void close() { all().clear(); }
        static A get(size_t k) { return A(*all()[k % 3]); }
    };

    // ------------------------------------------------------------------------------------------ trivial elements
    struct Three
    {
        unsigned char b[3];
    };
    struct Mixed // has padding, and constructors
    {
        uint32_t a = 7;
        uint16_t b = 8;
        Mixed() = default;
        Mixed(uint32_t x, uint16_t y) : a(x), b(y) {}
        explicit Mixed(uint64_t k) : a(uint32_t(k)), b(uint16_t(k >> 32)) {}
    };
    struct Big
    {
        uint64_t w[8];
    };
    struct alignas(16) Wide
    {
        uint64_t w[2];
    };

    template<typename T> struct El
    {
        static T make(uint64_t k) { return T(k); }
        static uint64_t key(const T& t) { return uint64_t(t); }
        static uint64_t norm(uint64_t k) { return key(make(k)); }
    };
    template<> struct El<double>
    {
        static double make(uint64_t k) { return double(k & 0xFFFFFFFFFFFFull); }
        static uint64_t key(const double& t) { return uint64_t(t); }
        static uint64_t norm(uint64_t k) { return k & 0xFFFFFFFFFFFFull; }
    };
    template<> struct El<void*>
    {
        static void* make(uint64_t k) { return reinterpret_cast<void*>(k); }
        static uint64_t key(void* const& t) { return uint64_t(reinterpret_cast<uintptr_t>(t)); }
        static uint64_t norm(uint64_t k) { return k; }
    };
    template<> struct El<Three>
    {
        static Three make(uint64_t k) { return Three{ { (unsigned char)k, (unsigned char)(k >> 8), (unsigned char)(k >> 16) } }; }
        static uint64_t key(const Three& t) { return uint64_t(t.b[0]) | uint64_t(t.b[1]) << 8 | uint64_t(t.b[2]) << 16; }
        static uint64_t norm(uint64_t k) { return k & 0xFFFFFF; }
    };
    template<> struct El<Mixed>
    {
        static Mixed make(uint64_t k) { return Mixed(uint32_t(k), uint16_t(k >> 32)); }
        static uint64_t key(const Mixed& t) { return uint64_t(t.a) | uint64_t(t.b) << 32; }
        static uint64_t norm(uint64_t k) { return k & 0xFFFFFFFFFFFFull; }
    };
    template<typename S, size_t N> struct Words
    {
        static S make(uint64_t k)
        {
            S s;
            for (size_t i = 0; i < N; i++) s.w[i] = i ? vf::mix(k + i) : k;
            return s;
        }
        static uint64_t key(const S& s)
        {
            for (size_t i = 1; i < N; i++)
                if (s.w[i] != vf::mix(s.w[0] + i)) return 0xDEADDEADDEADDEADull ^ i; // torn
            return s.w[0];
        }
        static uint64_t norm(uint64_t k) { return k; }
    };
    template<> struct El<Big> : Words<Big, 8> {};
    template<> struct El<Wide> : Words<Wide, 2> {};

    using Keys = std::vector<uint64_t>;

    template<typename T>
    std::vector<T> elements(const Keys& k)
    {
        std::vector<T> v;
        v.reserve(k.size());
        for (uint64_t x : k) v.push_back(El<T>::make(x));
        return v;
    }

    // std::vector<bool> is not an array
    template<typename T>
    struct Array
    {
        std::unique_ptr<T[]> p;
        size_t n;
        explicit Array(const Keys& k) : p(k.empty() ? nullptr : new T[k.size()]), n(k.size())
        {
            for (size_t i = 0; i < n; i++) p[i] = El<T>::make(k[i]);
        }
        const T* begin() const { return p.get(); }
        const T* end() const { return p.get() + n; }
    };

    // The ledgers' verdict
    inline void check_ledgers(const char* what)
    {
        if (!mode().ledger) return;
        Ledger& l = ledger();
        VF_CHECK(l.msg.empty(), l.key.c_str(), "%s: %s", what, l.msg.c_str());
        auto& w = leafs::world();
        VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s: %s", what, w.error.c_str());
    }

    inline size_t outstanding() { return ledger().live.size() + leafs::world().liveBlocks; }

    // A container's elements must lie in one outstanding block of as many elements as its capacity
    inline void check_block(const char* what, const void* data, size_t count, size_t unit, bool ledgered, int id)
    {
        if (!mode().ledger || !data || !count) return;
        if (ledgered)
        {
            auto it = ledger().live.find(reinterpret_cast<uintptr_t>(data));
            VF_CHECK(it != ledger().live.end(), "storage-not-outstanding", "%s: the elements are not in an outstanding block", what);
            VF_CHECK(it->second.count == count, "storage-of-other-size", "%s: %zu elements are kept in a block of %zu", what, count, it->second.count);
            if (id >= 0) VF_CHECK(it->second.id == id, "storage-of-wrong-allocator", "%s: made with allocator %d, the elements are in a block of allocator %d", what, id, it->second.id);
        }
        else if (leafs::world().liveBlocks)
        {
            auto& w = leafs::world();
            auto it = w.all.find(reinterpret_cast<uintptr_t>(data));
            VF_CHECK(it != w.all.end(), "storage-not-outstanding", "%s: the elements are not in an outstanding block", what);
            VF_CHECK(it->second.first == count * unit, "storage-of-other-size", "%s: %zu elements are kept in a block of %zu bytes", what, count, it->second.first);
        }
        vf::stat("storage_checks");
    }
}
