// C22: fixed buffers behave as arrays of their element type.
#include "containers.h"
#include <algorithm>
#include <array>

using namespace vf;
using namespace cont;

namespace
{
    struct Odd { unsigned char b[5]; };
    struct alignas(8) Eight { uint32_t a; unsigned char b; };
    struct alignas(64) Line { uint64_t w[8]; };
}
namespace cont
{
    template<> struct El<Odd>
    {
        static Odd make(uint64_t k) { Odd o; for (int i = 0; i < 5; i++) o.b[i] = (unsigned char)(k >> (8 * i)); return o; }
        static uint64_t key(const Odd& o) { uint64_t k = 0; for (int i = 0; i < 5; i++) k |= uint64_t(o.b[i]) << (8 * i); return k; }
        static uint64_t norm(uint64_t k) { return k & 0xFFFFFFFFFFull; }
    };
    template<> struct El<Eight>
    {
        static Eight make(uint64_t k) { return Eight{ uint32_t(k), (unsigned char)(k >> 32) }; }
        static uint64_t key(const Eight& o) { return uint64_t(o.a) | uint64_t(o.b) << 32; }
        static uint64_t norm(uint64_t k) { return k & 0xFFFFFFFFFFull; }
    };
    template<> struct El<Line> : Words<Line, 8> {};
    template<> struct El<long double>
    {
        static long double make(uint64_t k) { return (long double)(k & ((uint64_t(1) << 53) - 1)); } // valgrind knows no more bits
        static uint64_t key(const long double& x) { return uint64_t(x); }
        static uint64_t norm(uint64_t k) { return k & ((uint64_t(1) << 53) - 1); }
    };
}
namespace
{
    struct Buf
    {
        virtual ~Buf() = default;
        virtual std::unique_ptr<Buf> copy() = 0;
        virtual std::unique_ptr<Buf> moved() = 0;
        virtual void assign(Buf& o) = 0;
        virtual void assign_moved(Buf& o) = 0;
        virtual void assign_range(const Keys& k) = 0;
        virtual uint64_t get(size_t i, unsigned how) = 0;
        virtual void set(size_t i, uint64_t k, unsigned how) = 0;
        virtual size_t size() = 0;
        virtual Keys walk(unsigned how) = 0;
        virtual const void* first() = 0;
        virtual size_t at_offset(size_t i) = 0;      // of element i from the first
        virtual bool surrounded() = 0;               // are the bytes around the buffer as they were
    };

    struct Kind
    {
        const char* name;
        size_t n, unit, align;
        uint64_t (*norm)(uint64_t);
        std::unique_ptr<Buf> (*make)(unsigned how, const Keys& k);
    };

    template<typename T, size_t N>
    struct B final : Buf
    {
        using C = ktl::trivial_buffer<T, N>;
        using E = El<T>;
        unsigned char before[32];
        C c;
        unsigned char after[32];
        void mark() { memset(before, 0xA5, 32); memset(after, 0x5A, 32); }
        template<typename... X> explicit B(std::in_place_t, X&&... x) : c(std::forward<X>(x)...) { mark(); }
        explicit B(std::in_place_t) : c() { mark(); }
        bool surrounded() override
        {
            for (int i = 0; i < 32; i++)
                if (before[i] != 0xA5 || after[i] != 0x5A) return false;
            return true;
        }
        std::unique_ptr<Buf> copy() override { return std::unique_ptr<Buf>(new B(std::in_place, static_cast<const C&>(c))); }
        std::unique_ptr<Buf> moved() override { return std::unique_ptr<Buf>(new B(std::in_place, std::move(c))); }
        void assign(Buf& o) override { C& r = (c = static_cast<const C&>(static_cast<B&>(o).c)); VF_CHECK(&r == &c, "assignment-result", "assignment returned something else"); }
        void assign_moved(Buf& o) override { C& r = (c = std::move(static_cast<B&>(o).c)); VF_CHECK(&r == &c, "assignment-result", "assignment returned something else"); }
        void assign_range(const Keys& k) override { Array<T> a(k); c.assign(a.begin(), a.end()); }
        uint64_t get(size_t i, unsigned how) override
        {
            const C& k = c;
            const size_t j = i % N;
            switch (how % 7)
            {
            case 0: return E::key(c[i]);
            case 1: return E::key(k[i]);
            case 2: return E::key(k.at(i));
            case 3: return E::key(c.begin()[j]);
            case 4: return E::key(k.begin()[j]);
            case 5: return E::key(c.data()[j]);
            default: return E::key(*(k.end() - (N - j)));
            }
        }
        void set(size_t i, uint64_t x, unsigned how) override
        {
            switch (how % 5)
            {
            case 0: c[i] = E::make(x); break;
            case 1: c.at(i) = E::make(x); break;
            case 2: c.begin()[i % N] = E::make(x); break;
            case 3: c.data()[i % N] = E::make(x); break;
            default: c.rbegin()[ptrdiff_t(N - 1 - i % N)] = E::make(x); break;
            }
        }
        size_t size() override { return static_cast<const C&>(c).size(); }
        const void* first() override { return &c[0]; }
        size_t at_offset(size_t i) override { return size_t(reinterpret_cast<const char*>(&c[i]) - reinterpret_cast<const char*>(&c[0])); }
        Keys walk(unsigned how) override
        {
            Keys r;
            const C& k = c;
            switch (how % 4)
            {
            case 0: for (T& x : c) r.push_back(E::key(x)); break;
            case 1: for (const T& x : k) r.push_back(E::key(x)); break;
            case 2: for (auto it = c.rbegin(); it != c.rend(); ++it) r.push_back(E::key(*it)); break;
            default: for (auto it = k.rbegin(); it != k.rend(); ++it) r.push_back(E::key(*it)); break;
            }
            if (how % 4 >= 2) std::reverse(r.begin(), r.end());
            return r;
        }
    };

    template<typename T, size_t N>
    std::unique_ptr<Buf> make(unsigned how, const Keys& k)
    {
        using W = B<T, N>;
        using E = El<T>;
        Buf* r = nullptr;
        if (how == 0) r = new W(std::in_place);
        else if (how == 1) r = new W(std::in_place, E::make(k[0]));
        else if (how == 2) { Array<T> a(k); r = new W(std::in_place, a.begin(), a.end()); }
        else if constexpr (N == 1) r = new W(std::in_place, std::initializer_list<T>{ E::make(k[0]) });
        else if constexpr (N == 2) r = new W(std::in_place, std::initializer_list<T>{ E::make(k[0]), E::make(k[1]) });
        else if (how == 3) r = new W(std::in_place, std::initializer_list<T>{ E::make(k[0]), E::make(k[1]), E::make(k[2]) });
        else r = new W(std::in_place, std::initializer_list<T>{ E::make(k[0]) });
        return std::unique_ptr<Buf>(r);
    }

    template<typename T, size_t N> Kind kind(const char* name) { return Kind{ name, N, sizeof(T), alignof(T), &El<T>::norm, &make<T, N> }; }

    const std::vector<Kind>& kinds()
    {
#define K(T, N) kind<T, N>("trivial_buffer<" #T ", " #N ">")
        static std::vector<Kind> k = { K(unsigned char, 1), K(unsigned char, 3), K(unsigned char, 64), K(unsigned char, 1000), K(bool, 9), K(uint16_t, 5), K(uint16_t, 32), K(int32_t, 1), K(int32_t, 7),
            K(uint64_t, 2), K(uint64_t, 100), K(double, 3), K(void*, 6), K(Three, 1), K(Three, 11), K(Odd, 13), K(Eight, 4), K(Mixed, 5), K(Big, 3), K(Wide, 1), K(Wide, 6), K(Line, 2), K(long double, 3), K(uint32_t, 4096) };
        return k;
    }

    struct Slot { std::unique_ptr<Buf> b; Keys m; };
}

static void run_case(uint64_t idx, Rng& rng)
{
    const Kind& k = kinds()[idx % kinds().size()];
    uint64_t trace = hash_str(k.name), next = 1;
    auto fresh = [&] { return rng.chance(1, 6) ? k.norm(rng.chance(1, 2) ? 0 : UINT64_MAX >> 8) : k.norm(mix(next++ ^ rng.next()) >> 8); };
    Slot slots[3];
    auto check = [&](Slot& s) {
        if (!s.b) return;
        Buf& b = *s.b;
        VF_CHECK(b.size() == k.n, "size", "%s: its size is %zu", k.name, b.size());
        VF_CHECK(reinterpret_cast<uintptr_t>(b.first()) % k.align == 0, "misaligned", "%s: its elements are at %p, which is not aligned to %zu", k.name, b.first(), k.align);
        VF_CHECK(b.surrounded(), "outside-written", "%s: something outside the buffer was written", k.name);
        Keys w = b.walk(unsigned(rng.below(4)));
        VF_CHECK(w.size() == k.n, "iteration", "%s: iterating visits %zu elements", k.name, w.size());
        for (size_t i = 0; i < k.n; i++) VF_CHECK(w[i] == s.m[i], "elements", "%s: element %zu is %" PRIu64 " and should be %" PRIu64, k.name, i, w[i], s.m[i]);
        stat("elements_compared", k.n);
        for (int t = 0; t < 3; t++)
        {
            size_t i = 0;
            switch (rng.below(6))
            {
            case 0: i = SIZE_MAX - rng.below(5); break;
            case 1: i = size_t(rng.next()); break;
            case 2: i = k.n * rng.below(1000) + rng.below(2); break;
            default: i = rng.below(3 * k.n); break;
            }
            const unsigned how = unsigned(rng.below(7));
            const uint64_t x = b.get(i, how);
            VF_CHECK(x == s.m[i % k.n], "access", "%s: element %zu, accessed in way %u, is %" PRIu64 " and should be %" PRIu64, k.name, i, how, x, s.m[i % k.n]);
            VF_CHECK(b.at_offset(i) == (i % k.n) * k.unit, "place", "%s: element %zu is %zu bytes into the buffer", k.name, i, b.at_offset(i));
            if (i >= k.n) stat("wrapped_accesses");
        }
    };
    auto construct = [&](Slot& s) {
        const unsigned how = unsigned(rng.below(5));
        Keys m(k.n);
        for (auto& x : m) x = fresh();
        if (how == 1) std::fill(m.begin(), m.end(), m[0]);
        s.b.reset();
        s.b = k.make(how, m);
        size_t given = how == 0 ? 0 : how == 1 || how == 2 ? k.n : k.n <= 2 ? k.n : how == 3 ? 3 : 1;
        for (size_t i = 0; i < given; i++)
        {
            const uint64_t x = s.b->get(i, 0);
            VF_CHECK(x == m[i], "elements", "%s: made from %zu given elements, element %zu is %" PRIu64 " and should be %" PRIu64, k.name, given, i, x, m[i]);
        }
        for (size_t i = given; i < k.n; i++) s.b->set(i, m[i], unsigned(rng.below(5)));
        s.m = m;
        static const char* const names[] = { "made_empty", "made_from_value", "made_from_range", "made_from_list", "made_from_short_list" };
        stat(names[how]);
        trace = mix(trace ^ how);
    };
    for (auto& s : slots) construct(s);
    const size_t steps = rng.range(4, 40);
    for (size_t t = 0; t < steps; t++)
    {
        vf::detail("%s, step %zu", k.name, t);
        Slot& s = slots[rng.below(3)];
        Slot& o = slots[rng.below(3)];
        const unsigned op = unsigned(rng.below(8));
        switch (op)
        {
        case 0: construct(s); break;
        case 1: if (&s == &o) break; s.b = o.b->copy(); s.m = o.m; stat("copies"); break;
        case 2: if (&s == &o) break; s.b = o.b->moved(); s.m = o.m; stat("moves"); break;
        case 3: if (&s == &o) break; s.b->assign(*o.b); s.m = o.m; stat("assignments"); break;
        case 4: if (&s == &o) break; s.b->assign_moved(*o.b); s.m = o.m; stat("assignments"); break;
        case 5:
        {
            Keys m(k.n);
            for (auto& x : m) x = fresh();
            s.b->assign_range(m);
            s.m = m;
            stat("assigned_ranges");
            break;
        }
        default:
        {
            const size_t i = rng.chance(1, 8) ? size_t(rng.next()) : rng.below(2 * k.n);
            const uint64_t x = fresh();
            s.b->set(i, x, unsigned(rng.below(5)));
            s.m[i % k.n] = x;
            stat("writes");
            break;
        }
        }
        trace = mix(trace ^ op ^ uint64_t(&s - slots) << 8 ^ uint64_t(&o - slots) << 12);
        if (k.n < 200 || rng.chance(1, 10))
            for (auto& c : slots) check(c);
    }
    for (auto& c : slots) check(c);
    sig(trace);
    if (idx < kinds().size()) sample(k.name);
    stat((std::string("cases:") + k.name).c_str());
    digest(trace);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c22", run_case); }
