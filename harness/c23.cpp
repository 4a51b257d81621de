// Binary heaps: priority queues over exactly their elements (C23), whose elements live exactly once (C24), ledger (C25), copies (C26).
#include "containers.h"
#include <algorithm>
#include <functional>
#include <string>
#include <unordered_map>

using namespace vf;
using namespace cont;

namespace
{
    // ------------------------------------------------------------------------------------------ elements
    // Every object of a monitored type is known by its address while it is alive; each holds a resource unless it was moved from.
    struct World
    {
        struct Info { bool holds; };
        std::unordered_map<const void*, Info> alive;
        std::unordered_map<uint64_t, int> resources;  // how many objects hold it (always one)
        uint64_t nextResource = 1, born = 0, died = 0;
        std::string key, msg;
        void bad(const char* k, const char* m) { if (msg.empty()) { key = k; msg = m; } }
        void reset() { alive.clear(); resources.clear(); key.clear(); msg.clear(); }
    };
    World& world()
    {
        static World* w = new World;
        return *w;
    }

    template<bool Copyable, bool IdentityEquality, size_t Pad>
    class Live
    {
    public:
        explicit Live(uint64_t k) : m_Key(k), m_Res(acquire()), m_Box(new uint64_t(k)) { born(); pad(); }
        Live(const Live& o) { static_assert(Copyable, ""); o.read("copied"); m_Key = o.m_Key; m_Res = o.m_Res ? acquire() : 0; m_Box = o.m_Box ? new uint64_t(*o.m_Box) : nullptr; born(); pad(); }
        Live(Live&& o) noexcept { o.read("moved"); m_Key = o.m_Key; m_Res = o.m_Res; m_Box = o.m_Box; o.m_Res = 0; o.m_Box = nullptr; born(); pad(); }
        Live& operator=(const Live& o)
        {
            static_assert(Copyable, "");
            check("assigned to");
            o.read("copied");
            if (this == &o) return *this;
            release();
            m_Key = o.m_Key;
            m_Res = o.m_Res ? acquire() : 0;
            m_Box = o.m_Box ? new uint64_t(*o.m_Box) : nullptr;
            return *this;
        }
        Live& operator=(Live&& o) noexcept
        {
            check("assigned to");
            o.read("moved");
            if (this == &o) return *this;
            release();
            m_Key = o.m_Key;
            m_Res = o.m_Res;
            m_Box = o.m_Box;
            o.m_Res = 0;
            o.m_Box = nullptr;
            return *this;
        }
        ~Live()
        {
            World& w = world();
            w.died++;
            if (!w.alive.erase(this)) { w.bad("destroyed-while-not-alive", "an element was destroyed where none was alive"); return; }
            release();
        }
        uint64_t key() const
        {
            read("read");
            if (m_Box && *m_Box != m_Key) world().bad("resource-of-other-element", "an element holds the resource of another one");
            if (!m_Res) world().bad("moved-from-element-used", "an element that was moved from was read");
            return m_Key;
        }
        bool operator==(const Live& o) const { return IdentityEquality ? key() == o.key() : (key() & 0xFFFF) == (o.key() & 0xFFFF); }

    private:
        static uint64_t acquire()
        {
            World& w = world();
            w.resources[w.nextResource]++;
            return w.nextResource++;
        }
        void release()
        {
            if (m_Res)
            {
                World& w = world();
                if (!w.resources.erase(m_Res)) w.bad("resource-released-twice", "a resource of an element was released twice");
            }
            m_Res = 0;
            delete m_Box;
            m_Box = nullptr;
        }
        void born()
        {
            World& w = world();
            w.born++;
            if (!w.alive.emplace(this, World::Info{ true }).second) w.bad("constructed-where-alive", "an element was constructed where one is alive");
        }
        void check(const char* what) const
        {
            World& w = world();
            if (!w.alive.count(this)) w.bad("used-while-not-alive", fmt("an element was %s while it was not alive", what).c_str());
        }
        void read(const char* what) const { check(what); }
        void pad() { for (auto& p : m_Pad) p = (unsigned char)m_Key; }
        uint64_t m_Key;
        uint64_t m_Res;
        uint64_t* m_Box;
        unsigned char m_Pad[Pad];
    };

    using Obj = Live<true, true, 1>;
    using Same = Live<true, false, 40>;   // equal when their lower halves are
    using Only = Live<false, true, 8>;    // movable only

    template<typename T, typename = void> struct HE { static T make(uint64_t k) { return El<T>::make(k); } static uint64_t key(const T& t) { return El<T>::key(t); } static constexpr uint64_t mask = std::is_same_v<T, int> ? 0x7FFFFFFF : ~0ull; static constexpr bool live = false; static constexpr uint64_t eq = ~0ull; };
    template<> struct HE<std::string>
    {
        static std::string make(uint64_t k) { return fmt("%020" PRIu64, k) + (k % 3 ? "" : std::string(200, 'x')); }
        static uint64_t key(const std::string& s) { return s.size() < 20 ? 0xDEADDEADDEADDEADull : strtoull(s.c_str(), nullptr, 10); }
        static constexpr uint64_t mask = ~0ull >> 4;
        static constexpr bool live = false;
        static constexpr uint64_t eq = ~0ull;
    };
    template<bool C, bool I, size_t P> struct HE<Live<C, I, P>>
    {
        static Live<C, I, P> make(uint64_t k) { return Live<C, I, P>(k); }
        static uint64_t key(const Live<C, I, P>& t) { return t.key(); }
        static constexpr uint64_t mask = ~0ull;
        static constexpr bool live = true;
        static constexpr uint64_t eq = I ? ~0ull : 0xFFFF;
    };

    // ------------------------------------------------------------------------------------------ comparisons
    // By the whole key, or by its lower bits only (so that unequal elements are equivalent); the order is part of its state
    struct ByKey
    {
        bool down = false;
        uint64_t mask = ~0ull;
        static uint64_t calls;
        bool less(uint64_t a, uint64_t b) const { return down ? (b & mask) < (a & mask) : (a & mask) < (b & mask); }
        template<typename T>
        bool operator()(const T& a, const T& b) const { calls++; return less(HE<T>::key(a), HE<T>::key(b)); }
    };
    uint64_t ByKey::calls = 0;

    template<typename C> struct Cmp;
    template<> struct Cmp<ByKey> { static ByKey make(unsigned w) { return ByKey{ (w & 1) != 0, w & 2 ? 0xFull : ~0ull }; } };
    template<typename T> struct Cmp<std::less<T>> { static std::less<T> make(unsigned) { return {}; } };
    template<typename T> struct Cmp<std::greater<T>> { static std::greater<T> make(unsigned) { return {}; } };

    template<typename C> ByKey order_of(unsigned w)
    {
        if constexpr (std::is_same_v<C, ByKey>) return Cmp<ByKey>::make(w);
        else return ByKey{ C()(typename C::first_argument_type(2), typename C::first_argument_type(1)), ~0ull };
    }

    struct Heap
    {
        virtual ~Heap() = default;
        virtual std::unique_ptr<Heap> copy() = 0;
        virtual std::unique_ptr<Heap> moved() = 0;
        virtual std::unique_ptr<Heap> copy_with(size_t a) = 0;
        virtual std::unique_ptr<Heap> move_with(size_t a) = 0;
        virtual void assign(Heap& o) = 0;
        virtual void assign_moved(Heap& o) = 0;
        virtual size_t size() = 0;
        virtual size_t capacity() = 0;
        virtual bool empty() = 0;
        virtual const void* data() = 0;
        virtual uint64_t peek() = 0;
        virtual uint64_t pop() = 0;
        virtual uint64_t insert(uint64_t k, unsigned how) = 0;      // the key at the returned position
        virtual uint64_t insert_own(size_t i) = 0;
        virtual ptrdiff_t find(uint64_t k, uint64_t* got) = 0;      // -1 for end()
        virtual void clear() = 0;
        virtual void reserve(size_t n) = 0;
        virtual Keys walk(unsigned how) = 0;
    };

    struct Kind
    {
        const char* name;
        size_t unit;
        uint64_t mask, eq;
        bool ledgered, sourced, constructing, live, copyable, defaulted, stateful;
        void (*open)();
        void (*close)();
        std::unique_ptr<Heap> (*make)(unsigned how, size_t a, unsigned cmp, const Keys& k);
        ByKey (*order)(unsigned cmp);
    };

    template<typename T, typename C_, typename A>
    struct H final : Heap
    {
        using C = ktl::binary_heap<T, C_, A>;
        using E = HE<T>;
        C c;
        template<typename... X> explicit H(std::in_place_t, X&&... x) : c(std::forward<X>(x)...) {}
        static constexpr bool copyable = std::is_copy_constructible_v<T> && !std::is_same_v<T, Only>;
        std::unique_ptr<Heap> copy() override
        {
            if constexpr (copyable) return std::unique_ptr<Heap>(new H(std::in_place, static_cast<const C&>(c)));
            else return nullptr;
        }
        std::unique_ptr<Heap> moved() override { return std::unique_ptr<Heap>(new H(std::in_place, std::move(c))); }
        std::unique_ptr<Heap> copy_with(size_t a) override
        {
            if constexpr (copyable) return std::unique_ptr<Heap>(new H(std::in_place, static_cast<const C&>(c), Pool<A>::get(a)));
            else return nullptr;
        }
        std::unique_ptr<Heap> move_with(size_t a) override { return std::unique_ptr<Heap>(new H(std::in_place, std::move(c), Pool<A>::get(a))); }
        void assign(Heap& o) override
        {
            if constexpr (copyable)
            {
                C& r = (c = static_cast<const C&>(static_cast<H&>(o).c));
                VF_CHECK(&r == &c, "assignment-result", "assignment returned something else");
            }
        }
        void assign_moved(Heap& o) override
        {
            C& r = (c = std::move(static_cast<H&>(o).c));
            VF_CHECK(&r == &c, "assignment-result", "assignment returned something else");
        }
        size_t size() override { return static_cast<const C&>(c).size(); }
        size_t capacity() override { return static_cast<const C&>(c).capacity(); }
        bool empty() override { return static_cast<const C&>(c).empty(); }
        const void* data() override { return static_cast<const C&>(c).data(); }
        uint64_t peek() override { return E::key(c.peek()); }
        uint64_t pop() override { return E::key(c.pop()); }
        uint64_t insert(uint64_t k, unsigned how) override
        {
            T* r = nullptr;
            if constexpr (copyable)
            {
                if (how % 3 == 0)
                {
                    const T v = E::make(k);
                    r = c.insert(v);
                }
                else if (how % 3 == 1)
                {
                    T v = E::make(k);
                    r = c.insert(v);
                }
            }
            if (!r) r = c.insert(E::make(k));
            VF_CHECK(r >= c.begin() && r < c.end(), "position", "insertion into a heap of %zu returned a position outside", c.size());
            return E::key(*r);
        }
        uint64_t insert_own(size_t i) override
        {
            if constexpr (copyable)
            {
                T* r = c.insert(static_cast<const C&>(c).begin()[i]);
                VF_CHECK(r >= c.begin() && r < c.end(), "position", "insertion into a heap of %zu returned a position outside", c.size());
                return E::key(*r);
            }
            else return 0;
        }
        ptrdiff_t find(uint64_t k, uint64_t* got) override
        {
            const T v = E::make(k);
            T* r = static_cast<const C&>(c).find(v);
            if (r == c.end()) return -1;
            VF_CHECK(r >= c.begin() && r < c.end(), "found-outside", "searching a heap of %zu returned a position outside", c.size());
            *got = E::key(*r);
            return r - c.begin();
        }
        void clear() override { c.clear(); }
        void reserve(size_t n) override { c.reserve(n); }
        Keys walk(unsigned how) override
        {
            Keys r;
            const C& k = c;
            switch (how % 4)
            {
            case 0: for (T& x : c) r.push_back(E::key(x)); break;
            case 1: for (const T& x : k) r.push_back(E::key(x)); break;
            case 2: for (auto it = c.rbegin(); it != c.rend(); ++it) r.push_back(E::key(*it)); break;
            default: for (auto it = k.rbegin(); it != k.rend(); ++it) r.push_back(E::key(*it)); break;
            }
            return r;
        }
    };

    template<typename T, typename C, typename A>
    std::unique_ptr<Heap> make(unsigned how, size_t a, unsigned cmp, const Keys& k)
    {
        using W = H<T, C, A>;
        using E = HE<T>;
        const A al = Pool<A>::get(a);
        const C cm = Cmp<C>::make(cmp);
        Heap* r = nullptr;
        switch (how)
        {
        case 0: r = new W(std::in_place, al, cm); break;
        case 1: r = new W(std::in_place, k.size() + a, al, cm); break;
        case 2:
            if constexpr (W::copyable)
            {
                auto e = [&](size_t i) { return E::make(k[i]); };
                switch (k.size())
                {
                case 0: r = new W(std::in_place, std::initializer_list<T>{}, al, cm); break;
                case 1: r = new W(std::in_place, std::initializer_list<T>{ e(0) }, al, cm); break;
                case 2: r = new W(std::in_place, std::initializer_list<T>{ e(0), e(1) }, al, cm); break;
                default: r = new W(std::in_place, std::initializer_list<T>{ e(0), e(1), e(2), e(3), e(4) }, al, cm); break;
                }
            }
            else r = new W(std::in_place, al, cm);
            break;
        default:
            if constexpr (Pool<A>::defaulted)
            {
                if (how == 3) r = new W(std::in_place, cm);
                else if (how == 4) r = new W(std::in_place, k.size(), cm);
                else
                {
                    if constexpr (W::copyable)
                    {
                        auto e = [&](size_t i) { return E::make(k[i]); };
                        if (k.size() == 2) r = new W(std::in_place, std::initializer_list<T>{ e(0), e(1) }, cm);
                        else r = new W(std::in_place, std::initializer_list<T>{ e(0), e(1), e(2), e(3), e(4) }, cm);
                    }
                    else r = new W(std::in_place, cm);
                }
            }
            break;
        }
        return std::unique_ptr<Heap>(r);
    }

    template<typename C> struct Ord { static ByKey get(unsigned w) { return Cmp<C>::make(w); } };
    template<typename T> struct Ord<std::less<T>> { static ByKey get(unsigned) { return ByKey{ false, ~0ull }; } };
    template<typename T> struct Ord<std::greater<T>> { static ByKey get(unsigned) { return ByKey{ true, ~0ull }; } };

    template<typename T, typename C, typename A, bool Sourced = false, bool Constructing = false>
    Kind kind(const char* name)
    {
        return Kind{ name, sizeof(T), HE<T>::mask, HE<T>::eq, Pool<A>::ledgered, Sourced, Constructing, HE<T>::live, H<T, C, A>::copyable, Pool<A>::defaulted, std::is_same_v<C, ByKey>,
            &Pool<A>::open, &Pool<A>::close, &make<T, C, A>, &Ord<C>::get };
    }

    const std::vector<Kind>& kinds()
    {
        static std::vector<Kind> k = {
            kind<Obj, ByKey, rec<Obj>>("binary_heap<monitored> on a recording allocator"),
            kind<Obj, ByKey, rec<Obj, CTOR>, false, true>("binary_heap<monitored> on a constructing allocator"),
            kind<Obj, ByKey, ctor_alloc<Obj>, true>("binary_heap<monitored> on a counted constructing allocator"),
            kind<Obj, ByKey, shared_alloc<Obj>, true>("binary_heap<monitored> on a counted allocator"),
            kind<Same, ByKey, rec<Same, SELECT>>("binary_heap<monitored, coarsely equal> on a selecting allocator"),
            kind<Same, ByKey, ref_alloc<Same>, true>("binary_heap<monitored, coarsely equal> on a referenced allocator"),
            kind<Only, ByKey, rec<Only, CTOR>, false, true>("binary_heap<move-only> on a constructing allocator"),
            kind<Only, ByKey, heap_alloc<Only>>("binary_heap<move-only> on the heap"),
            kind<int, std::less<int>, rec<int>>("binary_min_heap<int> on a recording allocator"),
            kind<uint64_t, std::greater<uint64_t>, shared_alloc<uint64_t>, true>("binary_max_heap<uint64_t> on a counted allocator"),
            kind<std::string, ByKey, rec<std::string, CTOR>, false, true>("binary_heap<string> on a constructing allocator"),
            kind<std::string, std::greater<std::string>, std::allocator<std::string>>("binary_max_heap<string> on std::allocator"),
        };
        return k;
    }

    struct Slot
    {
        std::unique_ptr<Heap> h;
        std::multiset<uint64_t> m;
        ByKey order;
        int id = -1;
    };

    struct Driver
    {
        const Kind& k;
        Rng& rng;
        Slot slots[4];
        uint64_t trace;
        uint64_t next = 1;
        bool big = false, few = false;

        Driver(const Kind& kind_, Rng& r) : k(kind_), rng(r), trace(hash_str(kind_.name)) {}

        uint64_t fresh()
        {
            if (few) return rng.below(6) & k.mask;
            switch (rng.below(10))
            {
            case 0: return rng.below(8) & k.mask;
            case 1: return next++ & k.mask;                       // rising
            case 2: return (0xFFFFFFFu - next++) & k.mask;        // falling
            default: return (rng.next() >> 8) & k.mask;
            }
        }
        size_t length()
        {
            switch (rng.below(8))
            {
            case 0: return 0;
            case 1: return 1;
            case 2: return size_t(1) << rng.below(7);
            case 3: return rng.range(10, 60);
            case 4: return big ? rng.range(500, 4000) : 3;
            default: return rng.range(1, 9);
            }
        }

        bool before(const Slot& s, uint64_t a, uint64_t b) { return s.order.less(a, b); }

        // No element is ordered before this one
        bool is_root(Slot& s, uint64_t x)
        {
            for (uint64_t y : s.m)
                if (before(s, y, x)) return false;
            return true;
        }

        void check(Slot& s, bool full)
        {
            if (!s.h) return;
            Heap& h = *s.h;
            if (mode().values)
            {
                VF_CHECK(h.size() == s.m.size(), "size", "%s: it has %zu elements and should have %zu", k.name, h.size(), s.m.size());
                VF_CHECK(h.empty() == s.m.empty(), "empty", "%s: empty() is %d with %zu elements", k.name, int(h.empty()), s.m.size());
                VF_CHECK(h.capacity() >= h.size(), "capacity", "%s: a capacity of %zu for %zu elements", k.name, h.capacity(), h.size());
                if (!s.m.empty() && (full || s.m.size() < 100))
                {
                    const uint64_t r = h.peek();
                    VF_CHECK(s.m.count(r), "root-unknown", "%s: its root was never inserted", k.name);
                    VF_CHECK(is_root(s, r), "root-order", "%s: of %zu elements, one is ordered before the root", k.name, s.m.size());
                    stat("roots_checked");
                }
                if (full || s.m.size() < 100)
                {
                    Keys w = h.walk(unsigned(rng.below(4)));
                    std::sort(w.begin(), w.end());
                    VF_CHECK(w.size() == s.m.size() && std::equal(w.begin(), w.end(), s.m.begin()), "elements", "%s: its %zu elements are not the %zu inserted and not yet removed ones", k.name, w.size(), s.m.size());
                    stat("elements_compared", w.size());
                }
            }
            if (mode().ledger) check_block(k.name, h.capacity() ? h.data() : nullptr, h.capacity(), k.unit, k.ledgered, s.id);
            check_life();
        }

        void check_life()
        {
            if (!mode().life || !k.live) return;
            World& w = world();
            VF_CHECK(w.msg.empty(), w.key.c_str(), "%s: %s", k.name, w.msg.c_str());
            size_t expected = 0;
            for (auto& s : slots)
                if (s.h) expected += s.h->size();
            VF_CHECK(w.alive.size() == expected, "element-count", "%s: %zu elements are alive, the heaps have %zu", k.name, w.alive.size(), expected);
            VF_CHECK(w.resources.size() == expected, "resource-count", "%s: %zu resources are held for %zu elements", k.name, w.resources.size(), expected);
            stat("lifetime_checks");
        }

        void check_all(bool full)
        {
            size_t holding = 0, exist = 0, elements = 0;
            for (auto& s : slots)
            {
                check(s, full);
                if (!s.h) continue;
                exist++;
                holding += s.h->capacity() > 0;
                elements += s.h->size();
            }
            check_ledgers(k.name);
            if (mode().ledger && (k.ledgered || k.sourced))
            {
                VF_CHECK(outstanding() <= exist, "more-than-one-block", "%s: %zu heaps hold %zu blocks", k.name, exist, outstanding());
                VF_CHECK(outstanding() >= holding, "block-missing", "%s: %zu heaps with capacity hold %zu blocks", k.name, holding, outstanding());
                stat("ledger_checks");
                if (k.constructing)
                {
                    VF_CHECK(ledger().objects.size() == elements, "not-through-allocator", "%s: %zu elements, of which %zu were constructed through the allocator and not destroyed", k.name, elements, ledger().objects.size());
                    stat("construction_checks");
                }
            }
        }

        void construct(Slot& s)
        {
            unsigned how = unsigned(rng.below(k.defaulted ? 6 : 3));
            const size_t a = rng.below(3);
            const unsigned cmp = unsigned(rng.below(4));
            Keys m(length());
            for (auto& x : m) x = fresh();
            if (how == 2 && m.size() > 2) m.resize(5, 3);
            if (how == 5) m.resize(m.size() == 2 ? 2 : 5, 3);
            s.h.reset();
            s.h = k.make(how, a, cmp, m);
            s.id = !k.ledgered ? -1 : how < 3 ? int(a) : 0;
            s.order = k.order(cmp);
            s.m.clear();
            if ((how == 2 || how == 5) && k.copyable) s.m.insert(m.begin(), m.end());
            if (mode().values && (how == 1 || how == 4))
                VF_CHECK(s.h->capacity() >= m.size(), "capacity", "%s: made for %zu elements, it has a capacity of %zu", k.name, m.size(), s.h->capacity());
            stat("constructions");
            trace = mix(trace ^ how ^ (m.size() << 8));
        }

        void insert(Slot& s, uint64_t x)
        {
            const uint64_t at = s.h->insert(x, unsigned(rng.below(3)));
            s.m.insert(x);
            if (mode().values) VF_CHECK(at == x, "position", "%s: at the position returned by inserting %" PRIu64 " into %zu elements is %" PRIu64, k.name, x, s.m.size() - 1, at);
            stat("insertions");
        }

        void pop(Slot& s)
        {
            const uint64_t r = s.h->pop();
            if (mode().values)
            {
                VF_CHECK(s.m.count(r), "popped-unknown", "%s: %" PRIu64 " was removed from %zu elements, but was not in", k.name, r, s.m.size());
                if (s.m.size() < 100 || rng.chance(1, 20)) VF_CHECK(is_root(s, r), "popped-order", "%s: of %zu elements, one is ordered before the removed one", k.name, s.m.size());
            }
            auto it = s.m.find(r);
            if (it == s.m.end()) it = s.m.begin();
            s.m.erase(it);
            trace = mix(trace ^ r);
            stat("removals");
            if (s.m.empty()) stat("removals_of_the_last");
        }

        void mutate(Slot& s, unsigned op)
        {
            Heap& h = *s.h;
            const size_t n = s.m.size(), cap = h.capacity();
            switch (op)
            {
            case 0: case 1: case 2: insert(s, fresh()); break;
            case 3: case 4: if (!n) return; pop(s); break;
            case 5:
            {
                if (!n || !k.copyable) return;
                Keys w = h.walk(0);
                const size_t i = rng.below(std::min(n, w.size()));
                const uint64_t at = h.insert_own(i);
                s.m.insert(w[i]);
                if (mode().values) VF_CHECK(at == w[i], "position", "%s: at the position returned by inserting its own %" PRIu64 " is %" PRIu64, k.name, w[i], at);
                stat("own_elements_added");
                if (n == cap) stat("own_elements_added_growing");
                break;
            }
            case 6:
            {
                uint64_t x = fresh(), got = 0;
                if (n && rng.chance(2, 3))
                {
                    Keys w = h.walk(0);
                    if (!w.empty()) x = w[rng.below(w.size())];
                }
                const ptrdiff_t at = h.find(x, &got);
                if (mode().values)
                {
                    bool there = false;
                    for (uint64_t y : s.m) there |= (y & k.eq) == (x & k.eq);
                    VF_CHECK((at >= 0) == there, "search", "%s: an equal element is %s and was %s", k.name, there ? "in" : "not in", at >= 0 ? "found" : "not found");
                    if (at >= 0) VF_CHECK((got & k.eq) == (x & k.eq), "search", "%s: searching returned another element", k.name);
                }
                stat(at >= 0 ? "found" : "not_found");
                break;
            }
            case 7: h.clear(); s.m.clear(); break;
            case 8:
            {
                const size_t to = rng.chance(1, 3) ? cap + rng.below(3) : length();
                h.reserve(to);
                if (mode().values) VF_CHECK(h.capacity() >= to, "reserve", "%s: after reserving %zu the capacity is %zu", k.name, to, h.capacity());
                stat("reservations");
                break;
            }
            case 9: // a burst
                for (size_t i = rng.range(2, big ? 3000 : 25); i--;) insert(s, fresh());
                break;
            case 10: // drained: elements must come in order
            {
                bool first = true;
                uint64_t last = 0;
                size_t left = rng.chance(1, 2) ? 0 : rng.below(n + 1);
                while (s.m.size() > left && s.h->size())
                {
                    std::multiset<uint64_t> was;
                    const uint64_t r = h.pop();
                    if (mode().values)
                    {
                        VF_CHECK(s.m.count(r), "popped-unknown", "%s: %" PRIu64 " was removed from %zu elements, but was not in", k.name, r, s.m.size());
                        VF_CHECK(first || !before(s, r, last), "popped-order", "%s: removing everything, %" PRIu64 " came after %" PRIu64, k.name, r, last);
                    }
                    auto it = s.m.find(r);
                    if (it == s.m.end()) it = s.m.begin();
                    s.m.erase(it);
                    last = r;
                    first = false;
                    trace = mix(trace ^ r);
                    stat("removals");
                    if (s.m.empty()) stat("removals_of_the_last");
                }
                break;
            }
            }
            if (op != 8 && mode().values) VF_CHECK(h.capacity() >= s.m.size(), "capacity", "%s: capacity %zu for %zu elements", k.name, h.capacity(), s.m.size());
            trace = mix(trace ^ op ^ (s.m.size() << 6) ^ (h.capacity() << 32));
        }

        void transfer(Slot& s, unsigned op)
        {
            Slot& o = slots[rng.below(4)];
            if (!o.h) return;
            const bool self = &s == &o;
            if (!k.copyable && (op == 0 || op == 2 || op == 4)) op++;
            switch (op)
            {
            case 0:
                if (self) return;
                s.h.reset();
                s.h = o.h->copy();
                s.m = o.m;
                s.order = o.order;
                s.id = -1;
                stat("copies");
                break;
            case 1:
                if (self) return;
                s.h.reset();
                s.h = o.h->moved();
                s.m = std::move(o.m);
                o.m.clear();
                s.order = o.order;
                s.id = o.id;
                stat("moves");
                break;
            case 2: case 3:
            {
                if (self) return;
                const size_t a = rng.below(3);
                s.h.reset();
                if (op == 2) { s.h = o.h->copy_with(a); s.m = o.m; stat("copies_to_another_allocator"); }
                else { s.h = o.h->move_with(a); s.m = std::move(o.m); o.m.clear(); stat("moves_to_another_allocator"); }
                s.order = o.order;
                s.id = k.ledgered ? int(a) : -1;
                break;
            }
            case 4:
                s.h->assign(*o.h);
                s.m = o.m;
                s.order = o.order;
                if (!self) s.id = -1;
                stat(self ? "self_assignments" : "assignments");
                break;
            default:
                s.h->assign_moved(*o.h);
                if (!self) { s.m = std::move(o.m); o.m.clear(); s.order = o.order; s.id = -1; }
                stat(self ? "self_move_assignments" : "move_assignments");
                break;
            }
            trace = mix(trace ^ (op + 100) ^ (s.m.size() << 6));
            check(s, true);
            if (!self) check(o, true);
        }

        // Far more elements than fit any narrow counter: filled, used, copied and drained in order
        void many()
        {
            Slot& s = slots[0];
            vf::detail("%s, many elements", k.name);
            for (size_t i = rng.range(65500, 110000); i--;) insert(s, fresh());
            check(s, true);
            for (unsigned op : { 3, 0, 5, 6, 4, 1 }) mutate(s, op);
            Slot& t = slots[1];
            t.h = k.copyable ? s.h->copy() : s.h->moved();
            t.m = s.m;
            if (!k.copyable) s.m.clear();
            t.order = s.order;
            t.id = k.copyable ? -1 : s.id;
            check(s, true);
            check_all(true);
            for (size_t i = 0; i < 100 && t.m.size(); i++) mutate(t, 10);
            check_all(true);
            if (s.m.size()) mutate(s, 7);
            check_all(true);
            stat("histories_with_many_elements");
        }

        void run()
        {
            big = rng.chance(1, 150);
            few = rng.chance(1, 6);
            world().reset();
            ledger().reset();
            ledger().nullForZero = rng.chance(1, 2);
            leafs::world().reset();
            k.open();
            for (auto& s : slots) construct(s);
            const size_t steps = rng.range(5, big ? 40 : 120);
            const unsigned copying = mode().mix == 1 ? 6 : mode().mix == 2 ? 4 : 2; // of 10
            for (size_t i = 0; i < steps; i++)
            {
                Slot& s = slots[rng.below(4)];
                vf::detail("%s, step %zu", k.name, i);
                if (rng.chance(copying, 10))
                {
                    const unsigned op = unsigned(rng.below(7));
                    if (op == 6) construct(s);
                    else transfer(s, op);
                }
                else if (mode().mix == 1)
                {
                    static const unsigned simple[] = { 0, 0, 0, 3, 3, 7, 8, 9, 1, 2 };
                    mutate(s, simple[rng.below(10)]);
                }
                else mutate(s, unsigned(rng.below(11)));
                check(s, rng.chance(1, 4));
                if (rng.chance(1, 6) || mode().mix) check_all(false);
                stat("operations");
            }
            check_all(true);
            if (rng.chance(1, 1500)) many();
            stat_max("max:elements", std::max({ slots[0].m.size(), slots[1].m.size(), slots[2].m.size(), slots[3].m.size() }));
            for (auto& s : slots) { s.h.reset(); s.m.clear(); check_life(); }
            check_ledgers(k.name);
            if (mode().ledger && (k.ledgered || k.sourced))
                VF_CHECK(outstanding() == 0, "memory-kept", "%s: %zu blocks remain after all heaps are gone", k.name, outstanding());
            k.close();
            stat("comparisons", ByKey::calls);
            ByKey::calls = 0;
        }
    };
}

static void run_case(uint64_t idx, Rng& rng)
{
    const Kind& k = kinds()[idx % kinds().size()];
    Driver d(k, rng);
    d.run();
    sig(d.trace);
    if (idx < kinds().size()) sample(k.name);
    stat((std::string("cases:") + k.name).c_str());
    digest(d.trace);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c23", run_case); }
