// C37: exceptions of elements, comparators and allocators inside the containers. An operation which may throw (is not noexcept) is made to throw
// at a chosen copy, move or request. The client must catch that very exception; nothing may stay behind; what the operation only reads is unchanged,
// and what it writes is whole: exactly as before where the operation promises nothing but a change of size, otherwise holding whole elements.
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>

using namespace vf;
using namespace ktl;

namespace
{
    // ------------------------------------------------------------------------------- the fuse
    struct Exploded { uint64_t serial; };
    struct Fuse
    {
        bool armed = false;
        size_t left = 0;
        uint64_t serial = 0;
        bool burnt = false;
        const char* where = "";
        void pass(const char* at)
        {
            if (!armed) return;
            if (left-- > 0) return;
            armed = false;
            burnt = true;
            where = at;
            throw Exploded{ serial };
        }
    };
    Fuse fuse;

    // ------------------------------------------------------------------------------- elements, each of which registers where it lives
    std::set<const void*>& alive() { static auto* s = new std::set<const void*>; return *s; }

    template<bool ThrowsOnMove>
    class element
    {
        void born() noexcept { VF_CHECK(alive().insert(this).second, "twice-constructed", "an element is constructed where one lives"); }
        void lives() const noexcept { VF_CHECK(alive().count(this), "not-alive", "something is read or assigned which is not an element (any more)"); }
    public:
        int value;
        element(int v) noexcept : value(v) { born(); } // implicit, so that lists are easily written
        element(const element& o) : value((o.lives(), o.value)) { fuse.pass("a copy"); born(); }
        element(element&& o) noexcept(!ThrowsOnMove) : value((o.lives(), o.value)) { if (ThrowsOnMove) fuse.pass("a move"); born(); o.value = -1; }
        element& operator=(const element& o) { lives(); o.lives(); fuse.pass("a copy assignment"); value = o.value; return *this; }
        element& operator=(element&& o) noexcept(!ThrowsOnMove)
        {
            lives();
            o.lives();
            if (ThrowsOnMove) fuse.pass("a move assignment");
            if (this != &o) { value = o.value; o.value = -1; }
            return *this;
        }
        ~element() { VF_CHECK(alive().erase(this) == 1, "twice-destroyed", "something is destroyed which is not an element (any more)"); }
        bool operator==(const element& o) const noexcept { return value == o.value; }
    };

    struct plain
    {
        int value;
        short more;
        bool operator==(const plain& o) const noexcept { return value == o.value && more == o.more; }
    };

    struct less_that_throws
    {
        int direction = 1;
        less_that_throws() = default;
        explicit less_that_throws(int d) noexcept : direction(d) {}
        less_that_throws(const less_that_throws& o) : direction(o.direction) { fuse.pass("a copy of the comparator"); }
        less_that_throws(less_that_throws&& o) noexcept : direction(o.direction) {}
        less_that_throws& operator=(const less_that_throws& o) { fuse.pass("an assignment of the comparator"); direction = o.direction; return *this; }
        less_that_throws& operator=(less_that_throws&& o) noexcept { direction = o.direction; return *this; }
        template<typename T>
        bool operator()(const T& a, const T& b) const noexcept { return direction * a.value < direction * b.value; }
    };

    // ------------------------------------------------------------------------------- allocators which can throw
    struct Ledger
    {
        std::map<void*, size_t> blocks;
        int handles = 0;
    };
    Ledger* ledgers[2];

    class raw
    {
    public:
        int id;
        typedef size_t size_type;
        explicit raw(int i) noexcept : id(i) { ledgers[id]->handles++; }
        raw(const raw& o) noexcept : raw(o.id) {}
        raw& operator=(const raw& o) noexcept { ledgers[id]->handles--; id = o.id; ledgers[id]->handles++; return *this; }
        ~raw() { ledgers[id]->handles--; }
        void* allocate(size_t n)
        {
            fuse.pass("a request");
            void* p = malloc(n ? n : 1);
            memset(p, 0xEE, n ? n : 1);
            ledgers[id]->blocks[p] = n;
            return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            auto it = ledgers[id]->blocks.find(p);
            VF_CHECK(it != ledgers[id]->blocks.end(), "returned", "memory is returned which allocator %d did not provide, or twice", id);
            VF_CHECK(it->second == n, "returned-size", "%zu bytes are returned, %zu were requested", n, it->second);
            ledgers[id]->blocks.erase(it);
            free(p);
        }
        bool operator==(const raw& o) const noexcept { return id == o.id; }
        bool operator!=(const raw& o) const noexcept { return id != o.id; }
    };

    // Where one allocator of each kind comes from
    template<typename T> struct Own // a typed allocator which is not from the library
    {
        struct type
        {
            typedef T value_type;
            raw r;
            explicit type(int id) noexcept : r(id) {}
            T* allocate(size_t n) { return static_cast<T*>(r.allocate(n * sizeof(T))); }
            void deallocate(T* p, size_t n) noexcept { r.deallocate(p, n * sizeof(T)); }
            bool operator==(const type& o) const noexcept { return r == o.r; }
            bool operator!=(const type& o) const noexcept { return r != o.r; }
        };
        static constexpr bool direct = true;
        static const char* name() { return "allocator"; }
        std::unique_ptr<type> a[2];
        void open() { for (int i = 0; i < 2; i++) a[i] = std::make_unique<type>(i); }
        void close() { for (auto& x : a) x.reset(); }
        const type& get(int i) { return *a[i]; }
    };
    template<typename T> struct Reference
    {
        using type = type_allocator<T, reference<raw>>;
        static constexpr bool direct = true;
        static const char* name() { return "type_allocator<reference>"; }
        std::unique_ptr<raw> r[2];
        std::unique_ptr<type> a[2];
        void open() { for (int i = 0; i < 2; i++) { r[i] = std::make_unique<raw>(i); a[i] = std::make_unique<type>(*r[i]); } }
        void close() { for (auto& x : a) x.reset(); for (auto& x : r) x.reset(); }
        const type& get(int i) { return *a[i]; }
    };
    template<typename T> struct Shared
    {
        using type = type_allocator<T, shared<threaded<segragator<256, freelist<0, 256, raw>, raw>>>>;
        static constexpr bool direct = false;
        static const char* name() { return "type_allocator<shared<threaded<segragator<freelist>>>>"; }
        std::unique_ptr<type> a[2];
        void open() { for (int i = 0; i < 2; i++) a[i] = std::make_unique<type>(i, i); }
        void close() { for (auto& x : a) x.reset(); }
        const type& get(int i) { return *a[i]; }
    };

    enum { SLOTS = 3 };

    // Runs an operation which may explode. Was it completed?
    template<typename F>
    bool attempt(Rng& rng, const char* what, size_t events, F&& go)
    {
        static uint64_t serial = 0;
        fuse.left = rng.below(events + 2);
        fuse.armed = rng.chance(5, 6);
        fuse.burnt = false;
        fuse.serial = ++serial;
        stat("operations");
        try
        {
            go();
            VF_CHECK(!fuse.burnt, "swallowed", "%s: the exception of %s did not reach the client", what, fuse.where);
            fuse.armed = false;
            stat("completed");
            return true;
        }
        catch (const Exploded& e)
        {
            VF_CHECK(e.serial == fuse.serial, "another-exception", "%s: another exception reached the client", what);
            fuse.armed = false;
            stat("exploded");
            stat((std::string("exploded_at ") + fuse.where).c_str());
            return false;
        }
    }

    template<template<typename> class Source, typename T>
    struct Base
    {
        Rng& rng;
        Source<T> source;
        Ledger l[2];
        uint64_t trace = 0;
        explicit Base(Rng& r) : rng(r)
        {
            for (int i = 0; i < 2; i++) ledgers[i] = &l[i];
            alive().clear();
            source.open();
        }
        void note(unsigned op, bool done, size_t n) { trace = mix(trace ^ op ^ (done ? 64 : 0) ^ (n << 8)); }
        const auto& any() { return source.get(int(rng.below(2))); }

        // The blocks and elements there are belong to these containers
        template<typename C, typename Cap>
        void account(const char* what, std::unique_ptr<C> (&slots)[SLOTS], Cap capacity)
        {
            size_t holding = 0;
            for (auto& s : slots)
                if (s)
                {
                    if (s->data() != nullptr) holding++;
                    if (s->size())
                    {
                        bool found = false;
                        for (auto& x : l)
                        {
                            auto it = x.blocks.upper_bound(s->data());
                            if (it == x.blocks.begin()) continue;
                            --it;
                            const char* b = static_cast<char*>(it->first);
                            const char* p = reinterpret_cast<const char*>(s->data());
                            found |= p >= b && p + capacity(*s) * sizeof(T) <= b + it->second;
                        }
                        VF_CHECK(found, "storage", "%s: a container holds %zu elements in memory which is not allocated (any more)", what, size_t(s->size()));
                    }
                }
            if (Source<T>::direct)
                VF_CHECK(l[0].blocks.size() + l[1].blocks.size() == holding, "kept", "%s: %zu containers have memory, but %zu blocks are allocated", what, holding, l[0].blocks.size() + l[1].blocks.size());
            stat("accounts");
        }
        void finish(const char* what)
        {
            source.close();
            for (int i = 0; i < 2; i++)
            {
                VF_CHECK(l[i].blocks.empty(), "leaked", "%s: %zu blocks of allocator %d remain", what, l[i].blocks.size(), i);
                VF_CHECK(l[i].handles == 0, "leaked-allocator", "%s: %d allocators %d remain", what, l[i].handles, i);
            }
            VF_CHECK(alive().empty(), "leaked-elements", "%s: %zu elements remain", what, alive().size());
            sig(trace);
            digest(trace);
            stat("histories");
        }
    };

    // ------------------------------------------------------------------------------- heaps
    template<template<typename> class Source, bool ThrowsOnMove>
    struct Heaps : Base<Source, element<ThrowsOnMove>>
    {
        using T = element<ThrowsOnMove>;
        using B = Base<Source, T>;
        using A = typename Source<T>::type;
        using H = binary_heap<T, less_that_throws, A>;
        using B::rng;
        using B::l;
        std::unique_ptr<H> h[SLOTS];
        std::multiset<int> model[SLOTS];
        int direction[SLOTS] = {};
        std::string name;

        explicit Heaps(Rng& r) : B(r), name(fmt("binary_heap<%s, %s>", ThrowsOnMove ? "element whose copies and moves throw" : "element whose copies throw", Source<T>::name())) {}

        void check(const char* what)
        {
            size_t n = 0;
            for (int i = 0; i < SLOTS; i++)
            {
                if (!h[i]) continue;
                n += h[i]->size();
                VF_CHECK(h[i]->size() == model[i].size(), "size", "%s: a heap has %zu elements instead of %zu", what, h[i]->size(), model[i].size());
                VF_CHECK(h[i]->capacity() >= h[i]->size(), "capacity", "%s: a heap of %zu elements has a capacity of %zu", what, h[i]->size(), h[i]->capacity());
                std::multiset<int> seen;
                for (T* p = h[i]->begin(); p != h[i]->end(); ++p)
                {
                    VF_CHECK(alive().count(p), "not-an-element", "%s: a heap holds something at %zu which is not an element", what, size_t(p - h[i]->begin()));
                    seen.insert(p->value);
                    const size_t at = p - h[i]->begin();
                    if (at) VF_CHECK(direction[i] * h[i]->begin()[(at - 1) / 2].value <= direction[i] * p->value, "order", "%s: the order of a heap is broken", what);
                }
                VF_CHECK(seen == model[i], "elements", "%s: a heap of %zu does not hold the elements it should", what, seen.size());
            }
            VF_CHECK(alive().size() == n, "elements-left", "%s: the heaps hold %zu elements, but %zu live", what, n, alive().size());
            B::account(what, h, [](const H& x) { return x.capacity(); });
        }
        // What an operation that failed left in a heap: whole elements in order, each from one of these (or empty after being moved from)
        void take_over(const char* what, int i, const std::multiset<int>& from, const std::multiset<int>& more)
        {
            std::multiset<int> now;
            for (T* p = h[i]->begin(); p != h[i]->end(); ++p)
            {
                VF_CHECK(alive().count(p), "not-an-element", "%s: a heap holds something at %zu which is not an element", what, size_t(p - h[i]->begin()));
                now.insert(p->value);
            }
            VF_CHECK(std::includes(from.begin(), from.end(), now.begin(), now.end()) || std::includes(more.begin(), more.end(), now.begin(), now.end()), "elements", "%s: a heap holds elements which are neither of what it held nor of what it was to hold", what);
            model[i] = now;
        }

        void step()
        {
            const int i = int(rng.below(SLOTS)), j = (i + 1 + int(rng.below(SLOTS - 1))) % SLOTS;
            if (!h[i] && (!h[j] || rng.chance(1, 2)))
            {
                // From a list
                direction[i] = rng.chance(1, 2) ? 1 : -1;
                const less_that_throws c(direction[i]);
                const A& a = B::any();
                const size_t n = rng.below(9);
                int v[8];
                for (int& x : v) x = int(rng.below(20));
                vf::detail("%s: made from a list of %zu", name.c_str(), n);
                // Not armed while the list itself is made
                auto go = [&](std::initializer_list<T> list) {
                    return attempt(rng, "making a heap from a list", 2 * n + 2, [&] {
                        h[i].reset(new H(list, a, c));
                    });
                };
                bool done;
                if constexpr (ThrowsOnMove) done = (h[i].reset(new H(a, c)), true); // inserting moves, and is noexcept
                else
                    switch (n)
                    {
                    case 0: done = go({}); break;
                    case 1: done = go({ v[0] }); break;
                    case 2: done = go({ v[0], v[1] }); break;
                    case 3: done = go({ v[0], v[1], v[2] }); break;
                    case 4: done = go({ v[0], v[1], v[2], v[3] }); break;
                    case 5: done = go({ v[0], v[1], v[2], v[3], v[4] }); break;
                    case 6: done = go({ v[0], v[1], v[2], v[3], v[4], v[5] }); break;
                    case 7: done = go({ v[0], v[1], v[2], v[3], v[4], v[5], v[6] }); break;
                    default: done = go({ v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7] }); break;
                    }
                if (done && !ThrowsOnMove) model[i] = std::multiset<int>(v, v + n);
                else model[i].clear();
                B::note(1, done, n);
                check("after making a heap from a list");
                return;
            }
            if (!h[i])
            {
                // From another heap
                const bool moves = ThrowsOnMove && rng.chance(1, 2), with = moves || rng.chance(1, 2);
                const A& a = B::any();
                vf::detail("%s: %s of %zu%s", name.c_str(), moves ? "a move" : "a copy", h[j]->size(), with ? " with an allocator" : "");
                const size_t n = h[j]->size();
                const bool done = attempt(rng, "making a heap from another", n + 2, [&] {
                    if (moves) h[i].reset(new H(std::move(*h[j]), a));
                    else if (with) h[i].reset(new H(*h[j], a));
                    else h[i].reset(new H(*h[j]));
                });
                if (done)
                {
                    model[i] = model[j];
                    direction[i] = direction[j];
                    if (moves) model[j].clear();
                    stat(moves ? "moved" : "copied");
                }
                else if (moves)
                {
                    // Some were moved from: the heap must hold as many whole elements, which can be cleared
                    VF_CHECK(h[j]->size() == n, "size", "a heap whose move failed has %zu elements instead of %zu", h[j]->size(), n);
                    size_t lost = 0;
                    std::multiset<int> left = model[j];
                    for (T* p = h[j]->begin(); p != h[j]->end(); ++p)
                    {
                        VF_CHECK(alive().count(p), "not-an-element", "a heap whose move failed holds something which is not an element");
                        if (p->value == -1) lost++;
                        else { auto it = left.find(p->value); VF_CHECK(it != left.end(), "elements", "a heap whose move failed holds an element it never held"); left.erase(it); }
                    }
                    h[j]->clear();
                    model[j].clear();
                    stat("failed_moves");
                }
                B::note(2, done, n);
                check("after making a heap from another");
                return;
            }
            switch (rng.below(6))
            {
            case 0: case 1:
            {
                const size_t n = rng.range(1, 6);
                for (size_t k = 0; k < n; k++)
                {
                    const int v = int(rng.below(20));
                    h[i]->insert(T(v));
                    model[i].insert(v);
                }
                B::note(3, true, n);
                break;
            }
            case 2:
                if (!model[i].empty())
                {
                    const int v = h[i]->pop().value;
                    const int expect = direction[i] > 0 ? *model[i].begin() : *model[i].rbegin();
                    VF_CHECK(v == expect, "root", "a heap gave %d instead of %d", v, expect);
                    model[i].erase(model[i].find(v));
                    B::note(4, true, size_t(v));
                }
                break;
            case 3: case 4:
                if (h[j])
                {
                    vf::detail("%s: %zu elements are assigned to %zu", name.c_str(), h[j]->size(), h[i]->size());
                    const std::multiset<int> old = model[i];
                    const bool done = attempt(rng, "assigning a heap", h[j]->size() + 2, [&] { *h[i] = *h[j]; });
                    if (done)
                    {
                        model[i] = model[j];
                        direction[i] = direction[j];
                        stat("assigned");
                    }
                    else
                    {
                        // It has the comparator of one of them, so it's only ordered by either
                        take_over("after an assignment which failed", i, old, model[j]);
                        bool up = true, down = true;
                        for (size_t k = 1; k < h[i]->size(); k++)
                        {
                            up &= h[i]->begin()[(k - 1) / 2].value >= h[i]->begin()[k].value;
                            down &= h[i]->begin()[(k - 1) / 2].value <= h[i]->begin()[k].value;
                        }
                        VF_CHECK(up || down, "order", "after an assignment which failed, the order of a heap is broken");
                        if (rng.chance(1, 2))
                        {
                            // It can be used: empty it, in order, after which only its comparator matters
                            int first = 0, last = 0;
                            bool rises = true, falls = true;
                            for (size_t k = 0, n = h[i]->size(); k < n; k++)
                            {
                                const int v = h[i]->pop().value;
                                if (k) { rises &= v >= last; falls &= v <= last; }
                                else first = v;
                                last = v;
                            }
                            model[i].clear();
                            h[i]->insert(T(3));
                            h[i]->insert(T(7));
                            const int top = h[i]->pop().value;
                            direction[i] = top == 3 ? 1 : -1;
                            model[i].insert(top == 7 ? 3 : 7);
                            VF_CHECK(direction[i] > 0 ? rises : falls, "order", "after an assignment which failed, a heap gives its elements (%d to %d) in an order which is not its own", first, last);
                            stat("used_after_failure");
                        }
                        else
                        {
                            // or gone, or assigned again
                            if (rng.chance(1, 2)) { h[i].reset(); model[i].clear(); }
                            else { *h[i] = *h[j]; model[i] = model[j]; direction[i] = direction[j]; }
                            stat("replaced_after_failure");
                        }
                    }
                    B::note(5, done, model[i].size());
                }
                break;
            default:
                h[i].reset();
                model[i].clear();
                B::note(6, true, 0);
            }
            check("after an operation");
        }

        void run()
        {
            const size_t steps = rng.range(5, 60);
            for (size_t n = 0; n < steps; n++) step();
            for (auto& x : h) x.reset();
            B::finish(name.c_str());
        }
    };

    // ------------------------------------------------------------------------------- vectors and arrays
    template<template<typename> class Source, bool Vector>
    struct Rows : Base<Source, plain>
    {
        using T = plain;
        using B = Base<Source, T>;
        using A = typename Source<T>::type;
        using C = std::conditional_t<Vector, trivial_vector<T, A>, trivial_array<T, A>>;
        using B::rng;
        std::unique_ptr<C> c[SLOTS];
        std::vector<T> model[SLOTS];
        std::string name;

        explicit Rows(Rng& r) : B(r), name(fmt("%s<%s>", Vector ? "trivial_vector" : "trivial_array", Source<T>::name())) {}

        void check(const char* what)
        {
            for (int i = 0; i < SLOTS; i++)
            {
                if (!c[i]) continue;
                VF_CHECK(c[i]->size() == model[i].size(), "size", "%s: %s has %zu elements instead of %zu", what, name.c_str(), size_t(c[i]->size()), model[i].size());
                for (size_t k = 0; k < model[i].size(); k++) VF_CHECK((*c[i])[k] == model[i][k], "elements", "%s: %s holds another element at %zu", what, name.c_str(), k);
            }
            B::account(what, c, [](const C& x) { return size_t(x.size()); });
        }

        void step()
        {
            const int i = int(rng.below(SLOTS));
            std::vector<T> want(rng.below(12));
            for (T& x : want) { x.value = int(rng.below(1000)); x.more = short(rng.below(9)); }
            bool done = true;
            if (!c[i])
            {
                const A& a = B::any();
                const size_t kind = rng.below(4);
                if (kind == 0) want.assign(want.size(), T{ 4, 2 });
                done = attempt(rng, "making a container", 1, [&] {
                    switch (kind)
                    {
                    case 0: c[i].reset(new C(want.size(), T{ 4, 2 }, a)); break;
                    case 1: c[i].reset(new C(static_cast<const T*>(want.data()), static_cast<const T*>(want.data() + want.size()), a)); break;
                    case 2: c[i].reset(new C(std::initializer_list<T>{ { 1, 2 }, { 3, 4 } }, a)); break;
                    default: c[i].reset(new C(want.size(), a)); break;
                    }
                });
                if (done)
                {
                    if (kind == 2) want = { { 1, 2 }, { 3, 4 } };
                    if (kind == 3) for (size_t k = 0; k < want.size(); k++) (*c[i])[k] = want[k];
                    model[i] = want;
                    stat("made");
                }
                B::note(11, done, want.size());
            }
            else if (rng.chance(1, 8))
            {
                c[i].reset();
                model[i].clear();
            }
            else if constexpr (Vector)
            {
                // Only its constructors may throw
                for (const T& x : want) { c[i]->push_back(x); model[i].push_back(x); }
                if (!model[i].empty() && rng.chance(1, 2)) { c[i]->pop_back(); model[i].pop_back(); }
            }
            else if (rng.chance(1, 2))
            {
                const size_t n = want.size(), old = model[i].size();
                done = attempt(rng, "resizing an array", 1, [&] { c[i]->resize(n); });
                if (done)
                {
                    model[i].resize(n);
                    for (size_t k = old; k < n; k++) (*c[i])[k] = model[i][k] = want[k];
                }
                else stat("unchanged");
                B::note(12, done, n);
            }
            else
            {
                done = attempt(rng, "assigning to an array", 1, [&] { c[i]->assign(want.data(), want.data() + want.size()); });
                if (done) model[i] = want;
                else stat("unchanged");
                B::note(13, done, want.size());
            }
            check("after an operation");
        }

        void run()
        {
            const size_t steps = rng.range(5, 60);
            for (size_t n = 0; n < steps; n++) step();
            for (auto& x : c) x.reset();
            B::finish(name.c_str());
        }
    };

    template<template<typename> class Source>
    void on(Rng& rng, size_t what)
    {
        switch (what)
        {
        case 0: case 1: { Heaps<Source, false> d(rng); d.run(); break; }
        case 2: case 3: { Heaps<Source, true> d(rng); d.run(); break; }
        case 4: { Rows<Source, true> d(rng); d.run(); break; }
        default: { Rows<Source, false> d(rng); d.run(); break; }
        }
    }
}

static void run_case(uint64_t idx, Rng& rng)
{
    fuse = Fuse();
    switch (idx % 3)
    {
    case 0: on<Own>(rng, idx / 3 % 6); break;
    case 1: on<Reference>(rng, idx / 3 % 6); break;
    default: on<Shared>(rng, idx / 3 % 6); break;
    }
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c37", run_case); }
