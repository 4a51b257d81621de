// C19: standard containers on typed allocators with shared state, against the same containers on the default allocator.
#pragma once
#include "leaf.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace c19
{
    using vf::Rng;

    struct Run { const char* family; const char* container; void (*run)(Rng&, const char*, uint64_t&); };
    std::vector<Run>& runs();

    // Counts itself, holds memory, and cannot be moved bytewise
    struct Item
    {
        static inline long alive = 0;
        const Item* self;
        std::unique_ptr<uint64_t> box;
        Item() : Item(0) {}
        Item(uint64_t k) : self(this), box(new uint64_t(k)) { alive++; }
        Item(const Item& o) : self(this), box(o.box ? new uint64_t(*o.box) : nullptr) { o.check(); alive++; }
        Item(Item&& o) noexcept : self(this), box(std::move(o.box)) { o.check(); alive++; }
        Item& operator=(const Item& o) { check(); o.check(); if (this != &o) box.reset(o.box ? new uint64_t(*o.box) : nullptr); return *this; }
        Item& operator=(Item&& o) noexcept { check(); o.check(); box = std::move(o.box); return *this; }
        ~Item() { check(); self = nullptr; alive--; }
        void check() const { VF_CHECK(self == this, "element-misplaced", "an element of a standard container is not where it was constructed"); }
        uint64_t key() const { check(); return box ? *box : ~0ull; }
        bool operator==(const Item& o) const { return key() == o.key(); }
        bool operator<(const Item& o) const { return key() < o.key(); }
    };
    inline uint64_t key_of(const Item& i) { return i.key(); }
    inline uint64_t key_of(uint64_t i) { return i; }
    template<typename A, typename B> uint64_t key_of(const std::pair<A, B>& p) { return vf::mix(key_of(p.first)) + key_of(p.second); }
    inline uint64_t key_of(char c) { return uint64_t(c); }

    struct Hash { size_t operator()(const Item& i) const { return size_t(i.key() * 7); } size_t operator()(uint64_t k) const { return size_t(k * 7); } };

    // The two containers, and which state the first one's allocator is bound to
    template<typename K, typename S>
    struct Twin
    {
        K k;
        S s;
        int group;
    };

    template<bool Sorted, typename K, typename S>
    void same(const char* what, const char* op, Twin<K, S>& t)
    {
        VF_CHECK(t.k.size() == t.s.size(), "size", "%s: after %s it has %zu elements, with the default allocator %zu", what, op, size_t(t.k.size()), size_t(t.s.size()));
        VF_CHECK(t.k.empty() == t.s.empty(), "empty", "%s: after %s empty() differs", what, op);
        if constexpr (Sorted)
        {
            std::vector<uint64_t> a, b;
            for (auto& x : t.k) a.push_back(key_of(x));
            for (auto& x : t.s) b.push_back(key_of(x));
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            VF_CHECK(a == b, "elements", "%s: after %s it does not have the elements it has with the default allocator", what, op);
        }
        else
        {
            auto i = t.k.begin();
            for (auto& x : t.s)
            {
                VF_CHECK(i != t.k.end() && key_of(*i) == key_of(x), "elements", "%s: after %s it does not have the elements it has with the default allocator", what, op);
                ++i;
            }
            VF_CHECK(i == t.k.end(), "elements", "%s: after %s it has more elements than with the default allocator", what, op);
        }
        vf::stat("comparisons");
    }

    // What all containers can do with each other. Returns the name of what was done
    template<typename F, bool Sorted, typename K, typename S>
    const char* transfer(std::vector<std::unique_ptr<Twin<K, S>>>& all, Rng& rng, const char* what)
    {
        using A = typename K::allocator_type;
        using T = Twin<K, S>;
        const size_t i = rng.below(all.size()), j = rng.below(all.size());
        T& a = *all[i];
        T& b = *all[j];
        const int g = int(rng.below(2));
        const char* op = "nothing";
        auto fresh = [&](T* t) { all[i].reset(t); };
        switch (rng.below(9))
        {
        case 0: if (i == j) break; op = "copy construction"; fresh(new T{ K(static_cast<const K&>(b.k)), S(static_cast<const S&>(b.s)), b.group }); break;
        case 1: if (i == j) break; op = "move construction"; fresh(new T{ K(std::move(b.k)), S(std::move(b.s)), b.group }); b.k.clear(); b.s.clear(); break;
        case 2: if (i == j) break; op = "copy construction with an allocator"; fresh(new T{ K(static_cast<const K&>(b.k), A(F::raw(g))), S(static_cast<const S&>(b.s)), g }); break;
        case 3: if (i == j) break; op = "move construction with an allocator"; fresh(new T{ K(std::move(b.k), A(F::raw(g))), S(std::move(b.s)), g }); b.k.clear(); b.s.clear(); break;
        case 4: op = i == j ? "self assignment" : "copy assignment"; a.k = static_cast<const K&>(b.k); a.s = static_cast<const S&>(b.s); break;
        case 5: if (i == j) break; op = "move assignment"; a.k = std::move(b.k); a.s = std::move(b.s); b.k.clear(); b.s.clear(); break;
        case 6: if (a.group != b.group) break; op = "swap"; a.k.swap(b.k); a.s.swap(b.s); break;
        case 7: op = "construction"; fresh(new T{ K(A(F::raw(g))), S(), g }); break;
        default: op = "clear"; a.k.clear(); a.s.clear(); break;
        }
        for (auto& t : all)
        {
            VF_CHECK(t->k.get_allocator() == A(F::raw(t->group)), "allocator-lost", "%s: after %s its allocator is not the one it should be", what, op);
            VF_CHECK(!(t->k.get_allocator() != A(F::raw(t->group))), "allocator-lost", "%s: after %s its allocator is not the one it should be", what, op);
        }
        same<Sorted>(what, op, *all[i]);
        same<Sorted>(what, op, *all[j]);
        vf::stat(op);
        return op;
    }

    template<typename F, bool Sorted, typename K, typename S, typename Step>
    void history(Rng& rng, const char* what, uint64_t& trace, Step step)
    {
        using A = typename K::allocator_type;
        F::open();
        {
            std::vector<std::unique_ptr<Twin<K, S>>> all;
            for (int i = 0; i < 3; i++)
            {
                const int g = i == 2 ? 1 : 0;
                all.emplace_back(new Twin<K, S>{ K(A(F::raw(g))), S(), g });
            }
            const size_t steps = rng.range(5, 70);
            for (size_t n = 0; n < steps; n++)
            {
                vf::detail("%s, step %zu", what, n);
                const char* op;
                const size_t i = rng.below(all.size()), j = rng.below(all.size());
                if (rng.chance(1, 4)) op = transfer<F, Sorted>(all, rng, what);
                else { op = step(*all[i], *all[j], rng); vf::stat(op); }
                same<Sorted>(what, op, *all[i]);
                same<Sorted>(what, op, *all[j]);
                trace = vf::mix(trace ^ vf::hash_str(op) ^ all[i]->s.size() << 8);
                vf::stat("operations");
            }
            while (!all.empty())
            {
                const size_t i = rng.below(all.size());
                all.erase(all.begin() + long(i));
            }
        }
        F::close(what);
        VF_CHECK(Item::alive == 0, "elements-remain", "%s: %ld elements remain after all containers are gone", what, Item::alive);
    }

    template<typename T> T element(Rng& rng) { return T(rng.below(50)); }

    // vector, deque
    template<typename F, typename T, template<typename, typename> typename C, bool Deque>
    void run_array(Rng& rng, const char* what, uint64_t& trace)
    {
        using K = C<T, typename F::template A<T>>;
        using S = C<T, std::allocator<T>>;
        history<F, false, K, S>(rng, what, trace, [&](Twin<K, S>& a, Twin<K, S>& b, Rng& r) -> const char* {
            const size_t n = a.s.size();
            const T x = element<T>(r);
            const size_t at = r.below(n + 1), m = r.chance(1, 10) ? r.range(20, 120) : r.below(6);
            switch (r.below(14))
            {
            case 0: case 1: a.k.push_back(x); a.s.push_back(x); return "push_back";
            case 2: a.k.emplace_back(x); a.s.emplace_back(x); return "emplace_back";
            case 3: a.k.insert(a.k.begin() + long(at), x); a.s.insert(a.s.begin() + long(at), x); return "insert";
            case 4: a.k.insert(a.k.begin() + long(at), m, x); a.s.insert(a.s.begin() + long(at), m, x); return "insert of several";
            case 5:
                if (&a == &b) return "nothing";
                a.k.insert(a.k.begin() + long(at), b.k.begin(), b.k.begin() + long(b.k.size() / 2));
                a.s.insert(a.s.begin() + long(at), b.s.begin(), b.s.begin() + long(b.s.size() / 2));
                return "insert of a range";
            case 6: if (!n) return "nothing"; a.k.erase(a.k.begin() + long(at % n)); a.s.erase(a.s.begin() + long(at % n)); return "erase";
            case 7: { const size_t to = r.range(at, n); a.k.erase(a.k.begin() + long(at), a.k.begin() + long(to)); a.s.erase(a.s.begin() + long(at), a.s.begin() + long(to)); return "erase of a range"; }
            case 8: a.k.resize(m, x); a.s.resize(m, x); return "resize";
            case 9: a.k.assign(m, x); a.s.assign(m, x); return "assign";
            case 10: if (!n) return "nothing"; a.k.pop_back(); a.s.pop_back(); return "pop_back";
            case 11: a.k.shrink_to_fit(); a.s.shrink_to_fit(); return "shrink_to_fit";
            case 12:
                if constexpr (Deque) { a.k.push_front(x); a.s.push_front(x); return "push_front"; }
                else { a.k.reserve(m * 2); a.s.reserve(m * 2); return "reserve"; }
            default:
                if constexpr (Deque) { if (!n) return "nothing"; a.k.pop_front(); a.s.pop_front(); return "pop_front"; }
                else { if (!n) return "nothing"; a.k.push_back(a.k[at % n]); a.s.push_back(a.s[at % n]); return "push_back of its own"; }
            }
        });
    }

    // list, forward_list is left out (no size)
    template<typename F, typename T>
    void run_list(Rng& rng, const char* what, uint64_t& trace)
    {
        using K = std::list<T, typename F::template A<T>>;
        using S = std::list<T>;
        history<F, false, K, S>(rng, what, trace, [&](Twin<K, S>& a, Twin<K, S>& b, Rng& r) -> const char* {
            const size_t n = a.s.size();
            const T x = element<T>(r);
            const size_t at = r.below(n + 1);
            auto ki = std::next(a.k.begin(), long(at));
            auto si = std::next(a.s.begin(), long(at));
            switch (r.below(14))
            {
            case 0: a.k.push_back(x); a.s.push_back(x); return "push_back";
            case 1: a.k.push_front(x); a.s.push_front(x); return "push_front";
            case 2: a.k.emplace(ki, x); a.s.emplace(si, x); return "emplace";
            case 3: a.k.insert(ki, 4, x); a.s.insert(si, 4, x); return "insert of several";
            case 4: if (at == n) return "nothing"; a.k.erase(ki); a.s.erase(si); return "erase";
            case 5: a.k.remove(x); a.s.remove(x); return "remove";
            case 6: a.k.sort(); a.s.sort(); return "sort";
            case 7: a.k.unique(); a.s.unique(); return "unique";
            case 8: a.k.reverse(); a.s.reverse(); return "reverse";
            case 9: if (&a == &b || a.group != b.group) return "nothing"; a.k.splice(ki, b.k); a.s.splice(si, b.s); return "splice of a list";
            case 10:
            {
                if (&a == &b || a.group != b.group || b.s.empty()) return "nothing";
                const size_t f = r.below(b.s.size());
                a.k.splice(ki, b.k, std::next(b.k.begin(), long(f)), b.k.end());
                a.s.splice(si, b.s, std::next(b.s.begin(), long(f)), b.s.end());
                return "splice of a range";
            }
            case 11:
                if (&a == &b || a.group != b.group) return "nothing";
                a.k.sort(); a.s.sort(); b.k.sort(); b.s.sort();
                a.k.merge(b.k); a.s.merge(b.s);
                return "merge";
            case 12: a.k.resize(r.below(30), x); a.s.resize(a.k.size(), x); return "resize";
            default: if (!n) return "nothing"; a.k.pop_front(); a.s.pop_front(); return "pop_front";
            }
        });
    }

    template<typename F>
    void run_string(Rng& rng, const char* what, uint64_t& trace)
    {
        using K = std::basic_string<char, std::char_traits<char>, typename F::template A<char>>;
        using S = std::string;
        history<F, false, K, S>(rng, what, trace, [&](Twin<K, S>& a, Twin<K, S>& b, Rng& r) -> const char* {
            const size_t n = a.s.size(), at = r.below(n + 1), m = r.chance(1, 8) ? r.range(20, 200) : r.below(18);
            const char c = char('a' + r.below(26));
            switch (r.below(10))
            {
            case 0: a.k.push_back(c); a.s.push_back(c); return "push_back";
            case 1: a.k.append(m, c); a.s.append(m, c); return "append";
            case 2: a.k.insert(at, m, c); a.s.insert(at, m, c); return "insert";
            case 3: a.k.erase(at, m); a.s.erase(at, m); return "erase";
            case 4: a.k.replace(at, m, "some text to put there instead"); a.s.replace(at, m, "some text to put there instead"); return "replace";
            case 5: if (n > 2000) return "nothing"; a.k += b.k; a.s += b.s; return "append of a string";
            case 6: a.k.resize(m, c); a.s.resize(m, c); return "resize";
            case 7: a.k.shrink_to_fit(); a.s.shrink_to_fit(); return "shrink_to_fit";
            case 8: a.k.reserve(m * 3); a.s.reserve(m * 3); return "reserve";
            default:
            {
                const K sub(a.k, at, m, a.k.get_allocator());
                const S ssub = a.s.substr(at, m);
                VF_CHECK(std::equal(sub.begin(), sub.end(), ssub.begin(), ssub.end()), "elements", "%s: substr differs", what);
                VF_CHECK(a.k.find(c) == a.s.find(c), "elements", "%s: find differs", what);
                return "substr";
            }
            }
        });
    }

    // Ordered and unordered, maps and sets, unique and not
    template<typename F, typename K, typename S, bool Unordered, bool Map, typename T>
    void run_assoc(Rng& rng, const char* what, uint64_t& trace)
    {
        history<F, Unordered, K, S>(rng, what, trace, [&](Twin<K, S>& a, Twin<K, S>& b, Rng& r) -> const char* {
            const T x = element<T>(r);
            const T v = element<T>(r);
            switch (r.below(9))
            {
            case 0: case 1: case 2:
                if constexpr (Map) { a.k.emplace(x, v); a.s.emplace(x, v); }
                else { a.k.emplace(x); a.s.emplace(x); }
                return "emplace";
            case 3:
                for (int i = 0; i < 20; i++)
                {
                    const T y = element<T>(r);
                    if constexpr (Map) { a.k.insert({ y, v }); a.s.insert({ y, v }); }
                    else { a.k.insert(y); a.s.insert(y); }
                }
                return "insert of several";
            case 4:
            {
                const size_t e = a.k.erase(x), f = a.s.erase(x);
                VF_CHECK(e == f, "elements", "%s: erasing a key removed %zu elements, with the default allocator %zu", what, e, f);
                return "erase";
            }
            case 5:
                VF_CHECK(a.k.count(x) == a.s.count(x), "elements", "%s: count differs", what);
                VF_CHECK((a.k.find(x) == a.k.end()) == (a.s.find(x) == a.s.end()), "elements", "%s: find differs", what);
                return "find";
            case 6:
                if (a.s.empty()) return "nothing";
                // begin() of unordered containers is the same in both, as they have the same history
                if constexpr (Unordered) { auto y = a.k.extract(x); auto z = a.s.extract(x); VF_CHECK(y.empty() == z.empty(), "elements", "%s: extract differs", what); if (y) { b.group == a.group ? (void)b.k.insert(std::move(y)) : (void)0; } if (z) { b.group == a.group ? (void)b.s.insert(std::move(z)) : (void)0; } }
                else { auto y = a.k.extract(a.k.begin()); auto z = a.s.extract(a.s.begin()); if (a.group == b.group) { b.k.insert(std::move(y)); b.s.insert(std::move(z)); } }
                return "extract";
            case 7:
                if (&a == &b || a.group != b.group) return "nothing";
                a.k.merge(b.k);
                a.s.merge(b.s);
                return "merge";
            default:
                if constexpr (Unordered) { const size_t m = r.below(100); a.k.rehash(m); a.s.rehash(m); return "rehash"; }
                else
                {
                    auto i = a.k.lower_bound(x);
                    auto j = a.s.lower_bound(x);
                    VF_CHECK(std::distance(a.k.begin(), i) == std::distance(a.s.begin(), j), "elements", "%s: lower_bound differs", what);
                    a.k.erase(i, a.k.end());
                    a.s.erase(j, a.s.end());
                    return "erase of a range";
                }
            }
        });
    }

    template<typename F>
    void add(const char* family, unsigned part)
    {
        using I = Item;
        using U = uint64_t;
        auto& r = runs();
        if (part & 1)
        {
            r.push_back({ family, "vector<uint64_t>", &run_array<F, U, std::vector, false> });
            r.push_back({ family, "vector<Item>", &run_array<F, I, std::vector, false> });
            r.push_back({ family, "deque<Item>", &run_array<F, I, std::deque, true> });
            r.push_back({ family, "list<Item>", &run_list<F, I> });
            r.push_back({ family, "string", &run_string<F> });
        }
    }

    template<typename F>
    void add_assoc(const char* family)
    {
        using I = Item;
        using U = uint64_t;
        auto& r = runs();
        using P = std::pair<const U, U>;
        using Q = std::pair<const I, I>;
        r.push_back({ family, "map<uint64_t>", &run_assoc<F, std::map<U, U, std::less<U>, typename F::template A<P>>, std::map<U, U>, false, true, U> });
        r.push_back({ family, "multimap<Item>", &run_assoc<F, std::multimap<I, I, std::less<I>, typename F::template A<Q>>, std::multimap<I, I>, false, true, I> });
        r.push_back({ family, "set<Item>", &run_assoc<F, std::set<I, std::less<I>, typename F::template A<I>>, std::set<I>, false, false, I> });
        r.push_back({ family, "unordered_map<uint64_t>", &run_assoc<F, std::unordered_map<U, U, Hash, std::equal_to<U>, typename F::template A<P>>, std::unordered_map<U, U, Hash>, true, true, U> });
        r.push_back({ family, "unordered_map<Item>", &run_assoc<F, std::unordered_map<I, I, Hash, std::equal_to<I>, typename F::template A<Q>>, std::unordered_map<I, I, Hash>, true, true, I> });
        r.push_back({ family, "unordered_set<Item>", &run_assoc<F, std::unordered_set<I, Hash, std::equal_to<I>, typename F::template A<I>>, std::unordered_set<I, Hash>, true, false, I> });
    }

    // ------------------------------------------------------------------------------------------ families of allocators
    inline void audit_leaves(const char* what)
    {
        auto& w = leafs::world();
        VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s: %s", what, w.error.c_str());
        VF_CHECK(w.liveBlocks == 0 && w.droppedLive == 0, "memory-kept", "%s: %" PRIu64 " blocks remain after the containers and their allocators are gone", what, w.liveBlocks + w.droppedLive);
        vf::stat("audits");
        vf::stat("blocks_returned", w.totalFrees);
    }

    // Counted: two states
    template<typename Raw_>
    struct Counted
    {
        using Raw = Raw_;
        template<typename T> using A = ktl::type_allocator<T, Raw>;
        static Raw*& slot(int g) { static Raw* s[2]; return s[g]; }
        static const Raw& raw(int g) { return *slot(g); }
        static void open()
        {
            leafs::world().reset();
            for (int g = 0; g < 2; g++) slot(g) = new Raw;
        }
        static void close(const char* what)
        {
            for (int g = 0; g < 2; g++) { delete slot(g); slot(g) = nullptr; }
            audit_leaves(what);
        }
    };

    // Referenced: the two are ours
    template<typename Target>
    struct Referenced
    {
        using Raw = ktl::reference<Target>;
        template<typename T> using A = ktl::type_allocator<T, Raw>;
        static Target*& slot(int g) { static Target* s[2]; return s[g]; }
        static Raw raw(int g) { return Raw(*slot(g)); }
        static void open()
        {
            leafs::world().reset();
            for (int g = 0; g < 2; g++) slot(g) = new Target;
        }
        static void close(const char* what)
        {
            for (int g = 0; g < 2; g++) { delete slot(g); slot(g) = nullptr; }
            audit_leaves(what);
        }
    };

    // Without state: both are the same
    template<typename Raw_>
    struct Stateless
    {
        using Raw = Raw_;
        template<typename T> using A = ktl::type_allocator<T, Raw>;
        static Raw raw(int) { return Raw(); }
        static void open() { leafs::world().reset(); }
        static void close(const char* what) { audit_leaves(what); }
    };
}
