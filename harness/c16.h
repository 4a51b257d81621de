#pragma once
// C16: construction and destruction through allocators: once, at the address, with the arguments, by the allocator that owns the memory.
#include "leaf.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>

using namespace vf;

namespace c16
{
    // ------------------------------------------------------------------------------------------------- what was constructed
    enum Form { Default, Copy, Move, IntRef, ConstIntRef, IntMove, Owner, Three, Braces, Throws, FORMS };
    inline const char* form_names[] = { "()", "(const T&)", "(T&&)", "(int&)", "(const int&)", "(int&&)", "(unique_ptr&&)", "(int, const string&, T&)", "(const char*)", "(throwing)" };

    struct Record { Form form; const void* at; int64_t value; };
    inline std::vector<Record> g_Made;
    inline std::vector<const void*> g_Ended;
    inline std::map<const void*, int64_t> g_Alive;
    struct Boom { int id; const void* at; };
    struct Bang { int id; };

    template<size_t Size, size_t Align>
    struct alignas(Align) Probe
    {
        int64_t value;
        unsigned char pad[Size];
        void made(Form f, int64_t v)
        {
            value = v;
            memset(pad, int(v), sizeof pad);
            g_Made.push_back({ f, this, v });
            if (!g_Alive.emplace(this, v).second) g_Made.push_back({ f, this, -1 }); // twice: reported as too many
        }
        Probe() { made(Default, 7); }
        Probe(const Probe& o) { made(Copy, o.value); }
        Probe(Probe&& o) { made(Move, o.value); o.value = -5; }
        explicit Probe(int& i) { made(IntRef, i); i++; }
        explicit Probe(const int& i) { made(ConstIntRef, i); }
        explicit Probe(int&& i) { made(IntMove, i); i = -3; }
        explicit Probe(std::unique_ptr<int>&& u) { std::unique_ptr<int> mine(std::move(u)); made(Owner, *mine); }
        Probe(int a, const std::string& s, Probe& p) { made(Three, a + int64_t(s.size()) + p.value); p.value++; }
        explicit Probe(const char* s) { made(Braces, int64_t(strlen(s))); }
        explicit Probe(Bang b) { throw Boom{ b.id, this }; }
        ~Probe()
        {
            g_Ended.push_back(this);
            auto it = g_Alive.find(this);
            if (it == g_Alive.end()) g_Ended.push_back(nullptr);
            else g_Alive.erase(it);
        }
    };

    // ------------------------------------------------------------------------------------------------------------- sources
    // 0: no construction  1: everything  2: construction from an int only, and destruction  3: destruction only  4: construction only
    struct Call { bool construct; int tag; int inst; const void* at; size_t args; };
    inline std::vector<Call> g_Calls;

    constexpr bool kind_constructs(int kind, bool isInt) { return kind == 1 || kind == 4 || (kind == 2 && isInt); }
    constexpr bool kind_destroys(int kind) { return kind == 1 || kind == 2 || kind == 3; }

    template<typename... Args> struct first_is_int : std::false_type {};
    template<typename A> struct first_is_int<A> : std::is_same<std::decay_t<A>, int> {};

    template<int Tag, int Kind, unsigned Flags = leafs::OWNS>
    struct Part : leafs::leaf<Tag, Flags>
    {
        using B = leafs::leaf<Tag, Flags>;
        static constexpr int kind = Kind;
        static constexpr int tag = Tag;
        using B::B;
        Part() noexcept {}
        bool operator==(const Part& o) const noexcept { return B::operator==(o); }
        bool operator!=(const Part& o) const noexcept { return B::operator!=(o); }

        template<typename T, typename... Args>
        std::enable_if_t<kind_constructs(Kind, first_is_int<Args...>::value) && std::is_constructible_v<T, Args...>, void>
        construct(T* p, Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
        {
            g_Calls.push_back({ true, Tag, this->state()->inst, p, sizeof...(Args) });
            ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...);
        }
        template<typename T>
        std::enable_if_t<kind_destroys(Kind) && !std::is_void_v<T>, void> destroy(T* p) noexcept
        {
            g_Calls.push_back({ false, Tag, this->state()->inst, p, 0 });
            p->~T();
        }
    };

    template<typename V, typename A, typename... Args> struct offers_construct : std::false_type {};
    template<typename A, typename... Args>
    struct offers_construct<std::void_t<decltype(std::declval<A&>().construct(std::declval<Args>()...))>, A, Args...> : std::true_type {};
    template<typename A, typename T, typename = void> struct offers_destroy : std::false_type {};
    template<typename A, typename T> struct offers_destroy<A, T, std::void_t<decltype(std::declval<A&>().destroy(std::declval<T*>()))>> : std::true_type {};

    // ---------------------------------------------------------------------------------------------------------- compositions
    template<typename A, typename = void>
    struct bytes
    {
        template<typename T> static T* get(A& a, size_t n) { return static_cast<T*>(a.allocate(n * sizeof(T))); }
        template<typename T> static void put(A& a, T* p, size_t n) { a.deallocate(p, n * sizeof(T)); }
    };
    template<typename A>
    struct bytes<A, std::void_t<typename A::value_type>>
    {
        template<typename T> static T* get(A& a, size_t n) { return a.allocate(n); }
        template<typename T> static void put(A& a, T* p, size_t n) { a.deallocate(p, n); }
    };

    template<typename T> struct Blk { T* p; size_t n; std::vector<bool> alive; };

    template<bool Always, typename... Parts>
    struct Expect
    {
        template<bool IsInt> static constexpr bool constructs = Always || (kind_constructs(Parts::kind, IsInt) || ...);
        static constexpr bool destroys = Always || (kind_destroys(Parts::kind) || ...);
        static int kind_of(int tag)
        {
            int k = -1;
            ((Parts::tag == tag ? void(k = Parts::kind) : void()), ...);
            return k;
        }
    };

    // Which source's block holds this address (null: none of them, e.g. an arena's)
    inline const leafs::State* holder_of(const void* p)
    {
        auto& w = leafs::world();
        auto it = w.all.upper_bound(reinterpret_cast<uintptr_t>(p));
        if (it == w.all.begin()) return nullptr;
        --it;
        return reinterpret_cast<uintptr_t>(p) < it->first + it->second.first ? it->second.second : nullptr;
    }

    // What the monitor needs from one composition with one type of object
    template<typename T>
    struct Target
    {
        const char* name;
        uint64_t (*kinds)(int tag);
        bool expectInt, expectOther, expectDestroy;
        virtual T* get(size_t n) = 0;
        virtual void put(T* p, size_t n) = 0;
        // Each of them: does the construction through the allocator if that offers it, and says whether it does
        virtual bool make(T* p) = 0;
        virtual bool make(T* p, const T& o) = 0;
        virtual bool make(T* p, T&& o) = 0;
        virtual bool make(T* p, int& i) = 0;
        virtual bool make(T* p, const int& i) = 0;
        virtual bool make(T* p, int&& i) = 0;
        virtual bool make(T* p, std::unique_ptr<int>&& u) = 0;
        virtual bool make(T* p, int&& i, const std::string& s, T& o) = 0;
        virtual bool make(T* p, const char* const& s) = 0;
        virtual bool make(T* p, Bang&& b) = 0;
        virtual bool offers(Form f) = 0;
        virtual bool end(T* p) = 0;
        virtual ~Target() = default;
    };

    template<typename T, typename E, typename A>
    struct TargetOf final : Target<T>
    {
        A& a;
        TargetOf(const char* n, A& x) : a(x)
        {
            this->name = n;
            this->kinds = [](int tag) { return uint64_t(int64_t(E::kind_of(tag))); };
            this->expectInt = E::template constructs<true>;
            this->expectOther = E::template constructs<false>;
            this->expectDestroy = E::destroys;
        }
        T* get(size_t n) override { return bytes<A>::template get<T>(a, n); }
        void put(T* p, size_t n) override { bytes<A>::template put<T>(a, p, n); }
        template<typename... Args>
        bool go(T* p, Args&&... args)
        {
            if constexpr (offers_construct<void, A, T*, Args...>::value) { a.construct(p, std::forward<Args>(args)...); return true; }
            else { ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...); return false; }
        }
        bool make(T* p) override { return go(p); }
        bool make(T* p, const T& o) override { return go(p, o); }
        bool make(T* p, T&& o) override { return go(p, std::move(o)); }
        bool make(T* p, int& i) override { return go(p, i); }
        bool make(T* p, const int& i) override { return go(p, i); }
        bool make(T* p, int&& i) override { return go(p, std::move(i)); }
        bool make(T* p, std::unique_ptr<int>&& u) override { return go(p, std::move(u)); }
        bool make(T* p, int&& i, const std::string& s, T& o) override { return go(p, std::move(i), s, o); }
        bool make(T* p, const char* const& s) override { return go(p, s); }
        bool make(T* p, Bang&& b) override { return go(p, std::move(b)); }
        bool offers(Form f) override
        {
            switch (f)
            {
            case Default: return offers_construct<void, A, T*>::value;
            case Copy: return offers_construct<void, A, T*, const T&>::value;
            case Move: return offers_construct<void, A, T*, T&&>::value;
            case IntRef: return offers_construct<void, A, T*, int&>::value;
            case ConstIntRef: return offers_construct<void, A, T*, const int&>::value;
            case IntMove: return offers_construct<void, A, T*, int>::value;
            case Owner: return offers_construct<void, A, T*, std::unique_ptr<int>>::value;
            case Three: return offers_construct<void, A, T*, int, const std::string&, T&>::value;
            case Braces: return offers_construct<void, A, T*, const char* const&>::value;
            default: return offers_construct<void, A, T*, Bang>::value;
            }
        }
        bool end(T* p) override
        {
            if constexpr (offers_destroy<A, T>::value) { a.destroy(p); return true; }
            else { p->~T(); return false; }
        }
    };

    template<typename T, typename... Args>
    void construct_one(Target<T>& t, T* p, Form form, int64_t value, Args&&... args)
    {
        const char* name = t.name;
        const bool isInt = form == IntRef || form == ConstIntRef || form == IntMove;
        const bool expected = isInt ? t.expectInt : t.expectOther;
        const bool offers = t.offers(form);
        VF_CHECK(offers == expected, "wrongly-offered", "%s: construction %s is %s, but %s of its parts defines it", name, form_names[form], offers ? "offered" : "not offered", expected ? "one" : "none");
        g_Made.clear();
        g_Ended.clear();
        g_Calls.clear();
        const auto* h = holder_of(p);
        const int kind = h ? int(int64_t(t.kinds(h->tag))) : -1;
        const bool byPart = h && kind_constructs(kind, isInt) && expected;
        bool threw = false;
        try
        {
            if (t.make(p, std::forward<Args>(args)...)) stat("constructions_through_allocators");
        }
        catch (const Boom& b)
        {
            threw = true;
            VF_CHECK(form == Throws && b.id == int(value) && b.at == p, "exception-changed", "%s: another exception than the constructor's arrived", name);
        }
        catch (...)
        {
            fail("exception-changed", "%s: another exception than the constructor's arrived", name);
        }
        if (form == Throws)
        {
            VF_CHECK(threw, "exception-lost", "%s: the exception of a constructor did not arrive", name);
            VF_CHECK(g_Made.empty() && g_Ended.empty(), "constructed-elsewhere", "%s: objects were made or ended by a failing construction", name);
            stat("throwing");
        }
        else
        {
            VF_CHECK(g_Made.size() == 1 && g_Ended.empty(), "constructed-wrong-times", "%s: construction %s constructed %zu objects and destroyed %zu", name, form_names[form], g_Made.size(), g_Ended.size());
            VF_CHECK(g_Made[0].at == p, "constructed-elsewhere", "%s: construction %s was done at %p instead of %p", name, form_names[form], g_Made[0].at, (void*)p);
            VF_CHECK(g_Made[0].form == form, "wrong-value-category", "%s: construction %s called the constructor %s", name, form_names[form], form_names[g_Made[0].form]);
            VF_CHECK(g_Made[0].value == value, "wrong-arguments", "%s: construction %s got other arguments", name, form_names[form]);
        }
        if (byPart)
        {
            VF_CHECK(g_Calls.size() == 1 && g_Calls[0].construct, "owner-not-asked", "%s: construction %s in memory of source %d asked the sources %zu times", name, form_names[form], h->tag, g_Calls.size());
            VF_CHECK(g_Calls[0].tag == h->tag && g_Calls[0].inst == h->inst, "wrong-owner-asked", "%s: construction %s in memory of source %d#%d was done by source %d#%d", name, form_names[form],
                h->tag, h->inst, g_Calls[0].tag, g_Calls[0].inst);
            VF_CHECK(g_Calls[0].at == p && g_Calls[0].args == sizeof...(Args), "wrong-arguments", "%s: construction %s reached its source with %zu arguments", name, form_names[form], g_Calls[0].args);
            stat("constructions_by_owner");
        }
        else
        {
            VF_CHECK(g_Calls.empty(), "wrong-owner-asked", "%s: construction %s, in memory whose source does not define it, was done by source %d", name, form_names[form], g_Calls[0].tag);
            stat("constructions_without_owner");
        }
    }

    template<typename T>
    void destroy_one(Target<T>& t, T* p)
    {
        const char* name = t.name;
        g_Made.clear();
        g_Ended.clear();
        g_Calls.clear();
        const auto* h = holder_of(p);
        const int kind = h ? int(int64_t(t.kinds(h->tag))) : -1;
        const bool offers = t.end(p);
        VF_CHECK(offers == t.expectDestroy, "wrongly-offered", "%s: destruction is %s, but %s of its parts defines it", name, offers ? "offered" : "not offered", t.expectDestroy ? "one" : "none");
        if (offers) stat("destructions_through_allocators");
        VF_CHECK(g_Ended.size() == 1 && g_Made.empty(), "destroyed-wrong-times", "%s: destruction destroyed %zu objects", name, g_Ended.size());
        VF_CHECK(g_Ended[0] == p, "destroyed-elsewhere", "%s: destruction was done at %p instead of %p", name, g_Ended[0], (void*)p);
        if (h && kind_destroys(kind) && t.expectDestroy)
        {
            VF_CHECK(g_Calls.size() == 1, "owner-not-asked", "%s: destruction in memory of source %d asked the sources %zu times", name, h->tag, g_Calls.size());
            VF_CHECK(!g_Calls[0].construct && g_Calls[0].tag == h->tag && g_Calls[0].inst == h->inst && g_Calls[0].at == p, "wrong-owner-asked", "%s: destruction in memory of source %d#%d was done by source %d#%d", name,
                h->tag, h->inst, g_Calls[0].tag, g_Calls[0].inst);
            stat("destructions_by_owner");
        }
        else
            VF_CHECK(g_Calls.empty(), "wrong-owner-asked", "%s: destruction, in memory whose source does not define it, was done by source %d", name, g_Calls[0].tag);
    }

    template<typename T>
    void drive(Target<T>& t, Rng& rng)
    {
        const char* name = t.name;
        vf::detail("%s, objects of %zu bytes", name, sizeof(T));
        uint64_t trace = hash_str(name) ^ sizeof(T);
        std::vector<Blk<T>> blocks;
        g_Alive.clear();
        const size_t steps = rng.range(10, 80);
        for (size_t s = 0; s < steps; s++)
        {
            const unsigned op = unsigned(rng.below(10));
            trace = mix(trace ^ op);
            if (op < 2 && blocks.size() < 24)
            {
                const size_t n = rng.chance(1, 2) ? 1 : rng.range(1, 6);
                T* p = t.get(n);
                trace = mix(trace ^ n ^ (p ? 64 : 0));
                if (p) blocks.push_back({ p, n, std::vector<bool>(n) });
            }
            else if (op < 7 && !blocks.empty())
            {
                auto& b = rng.pick(blocks);
                const size_t k = rng.below(b.n);
                T* p = b.p + k;
                if (b.alive[k])
                {
                    destroy_one(t, p);
                    b.alive[k] = false;
                }
                else
                {
                    const Form f = Form(rng.below(FORMS));
                    int v = int(rng.range(1, 100));
                    const int64_t v0 = v;
                    trace = mix(trace ^ unsigned(f));
                    bool ok = true;
                    switch (f)
                    {
                    case Default: construct_one(t, p, f, 7); break;
                    case Copy: case Move: case Three:
                    {
                        alignas(T) unsigned char space[sizeof(T)];
                        T* other = ::new (space) T(static_cast<const int&>(v));
                        if (f == Copy) construct_one(t, p, f, v0, static_cast<const T&>(*other));
                        else if (f == Move)
                        {
                            construct_one(t, p, f, v0, std::move(*other));
                            VF_CHECK(other->value == -5, "wrong-value-category", "%s: the object moved from was not", name);
                        }
                        else
                        {
                            const std::string abc("abc");
                            construct_one(t, p, f, v0 + 3 + v0, int(v), abc, *other);
                            VF_CHECK(other->value == v0 + 1, "wrong-value-category", "%s: an object given by reference was copied", name);
                        }
                        other->~T();
                        break;
                    }
                    case IntRef:
                        construct_one(t, p, f, v0, v);
                        VF_CHECK(v == v0 + 1, "wrong-value-category", "%s: an int given by reference was copied", name);
                        break;
                    case ConstIntRef: construct_one(t, p, f, v0, static_cast<const int&>(v)); break;
                    case IntMove: construct_one(t, p, f, v0, std::move(v)); break;
                    case Owner:
                    {
                        std::unique_ptr<int> u(new int(v));
                        construct_one(t, p, f, v0, std::move(u));
                        VF_CHECK(!u, "wrong-value-category", "%s: the argument moved from was not", name);
                        break;
                    }
                    case Braces:
                    {
                        static const char* const hello = "hello";
                        construct_one(t, p, f, 5, hello);
                        break;
                    }
                    case Throws: construct_one(t, p, f, v0, Bang{ int(v0) }); ok = false; break;
                    default: break;
                    }
                    b.alive[k] = ok;
                }
            }
            else if (op < 9 && !blocks.empty())
            {
                const size_t i = rng.below(blocks.size());
                auto& b = blocks[i];
                for (size_t k = 0; k < b.n; k++)
                    if (b.alive[k]) destroy_one(t, b.p + k);
                t.put(b.p, b.n);
                std::swap(blocks[i], blocks.back());
                blocks.pop_back();
            }
        }
        for (auto& b : blocks)
        {
            for (size_t k = 0; k < b.n; k++)
                if (b.alive[k]) destroy_one(t, b.p + k);
            t.put(b.p, b.n);
        }
        VF_CHECK(g_Alive.empty(), "destroyed-wrong-times", "%s: %zu objects are left", name, g_Alive.size());
        sig(trace);
        digest(trace);
        stat((std::string("cases:") + name).c_str());
        sample(fmt("%s with objects of %zu bytes: %zu steps", name, sizeof(T), steps));
    }
    template<typename T, typename E, typename A>
    void drive(const char* name, A& a, Rng& rng)
    {
        TargetOf<T, E, A> t(name, a);
        drive<T>(t, rng);
    }

    using Small = Probe<8, 8>;
    using Big = Probe<72, 16>;

    struct NullStream
    {
        template<typename X> NullStream& operator<<(X&&) { return *this; }
    };

    template<typename E, typename A>
    void both(const char* name, A& a, Rng& rng) { drive<std::conditional_t<sizeof(A) % 16 == 0, Small, Big>, E>(name, a, rng); }

    using namespace ktl;
    template<int K> using P0 = Part<0, K>;
    template<int K> using P1 = Part<1, K>;
    template<int K> using P2 = Part<2, K>;
    using SH = Part<3, 1, leafs::OWNS | leafs::SHARED>;

    // The families are compiled separately
    void pairs_a(unsigned n, unsigned which, Rng& rng);
    void pairs_b(unsigned n, unsigned which, Rng& rng);
    void singles(unsigned n, unsigned which, Rng& rng);
    void threes(unsigned n, unsigned which, Rng& rng);
}
