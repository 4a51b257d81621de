// Trivial arrays against reference sequences (C21), their ledger (C25), copies and moves (C26).
#include "containers.h"
#include <algorithm>

using namespace vf;
using namespace cont;

namespace
{
    struct Arr
    {
        virtual ~Arr() = default;
        virtual std::unique_ptr<Arr> copy() = 0;
        virtual std::unique_ptr<Arr> moved() = 0;
        virtual std::unique_ptr<Arr> copy_with(size_t a) = 0;
        virtual std::unique_ptr<Arr> move_with(size_t a) = 0;
        virtual void assign(Arr& o) = 0;
        virtual void assign_moved(Arr& o) = 0;
        virtual size_t size() = 0;
        virtual bool empty() = 0;
        virtual const void* data() = 0;
        virtual uint64_t get(size_t i, unsigned how) = 0;
        virtual void set(size_t i, uint64_t k, unsigned how) = 0;
        virtual void resize(size_t n) = 0;
        virtual void assign_range(const Keys& k) = 0;
        virtual Keys walk(unsigned how) = 0;
    };

    struct Kind
    {
        const char* name;
        size_t unit;
        bool ledgered, sourced, select, defaulted;
        void (*open)();
        void (*close)();
        uint64_t (*norm)(uint64_t);
        std::unique_ptr<Arr> (*make)(unsigned how, size_t a, const Keys& k);
    };

    template<typename T, typename A>
    struct V final : Arr
    {
        using C = ktl::trivial_array<T, A>;
        using E = El<T>;
        C c;
        template<typename... X> explicit V(std::in_place_t, X&&... x) : c(std::forward<X>(x)...) {}
        std::unique_ptr<Arr> copy() override { return std::unique_ptr<Arr>(new V(std::in_place, static_cast<const C&>(c))); }
        std::unique_ptr<Arr> moved() override { return std::unique_ptr<Arr>(new V(std::in_place, std::move(c))); }
        std::unique_ptr<Arr> copy_with(size_t a) override { return std::unique_ptr<Arr>(new V(std::in_place, static_cast<const C&>(c), Pool<A>::get(a))); }
        std::unique_ptr<Arr> move_with(size_t a) override { return std::unique_ptr<Arr>(new V(std::in_place, std::move(c), Pool<A>::get(a))); }
        void assign(Arr& o) override
        {
            C& r = (c = static_cast<const C&>(static_cast<V&>(o).c));
            VF_CHECK(&r == &c, "assignment-result", "assignment returned something else");
        }
        void assign_moved(Arr& o) override
        {
            C& r = (c = std::move(static_cast<V&>(o).c));
            VF_CHECK(&r == &c, "assignment-result", "assignment returned something else");
        }
        size_t size() override { return static_cast<const C&>(c).size(); }
        bool empty() override { return static_cast<const C&>(c).empty(); }
        const void* data() override { return c.data(); }
        uint64_t get(size_t i, unsigned how) override
        {
            const C& k = c;
            switch (how % 8)
            {
            case 0: return E::key(c[i]);
            case 1: return E::key(k[i]);
            case 2: return E::key(k.at(i));
            case 3: return E::key(c.begin()[i]);
            case 4: return E::key(k.begin()[i]);
            case 5: return E::key(c.data()[i]);
            case 6: return E::key(k.data()[i]);
            default: return E::key(*(k.end() - (c.size() - i)));
            }
        }
        void set(size_t i, uint64_t x, unsigned how) override
        {
            switch (how % 4)
            {
            case 0: c[i] = E::make(x); break;
            case 1: c.at(i) = E::make(x); break;
            case 2: *(c.begin() + i) = E::make(x); break;
            default: c.rbegin()[ptrdiff_t(c.size() - 1 - i)] = E::make(x); break;
            }
        }
        void resize(size_t n) override { c.resize(n); }
        void assign_range(const Keys& k) override
        {
            Array<T> v(k);
            c.assign(v.begin(), v.end());
        }
        Keys walk(unsigned how) override
        {
            Keys r;
            const C& k = c;
            switch (how % 4)
            {
            case 0: for (T& x : c) r.push_back(E::key(x)); break;
            case 1: for (const T& x : k) r.push_back(E::key(x)); break;
            case 2: for (auto it = c.rbegin(); it != c.rend(); ++it) r.push_back(E::key(*it)); break;
            default: for (auto it = k.rbegin(); it != k.rend(); ++it) r.push_back(E::key(*it)); break;
            }
            if (how % 4 >= 2) std::reverse(r.begin(), r.end());
            return r;
        }
    };

    template<typename T, typename A>
    std::unique_ptr<Arr> make(unsigned how, size_t a, const Keys& k)
    {
        using W = V<T, A>;
        using E = El<T>;
        const A al = Pool<A>::get(a);
        Array<T> v(k);
        auto e = [&](size_t i) { return E::make(k[i]); };
        Arr* r = nullptr;
        switch (how)
        {
        case 0: r = new W(std::in_place, al); break;
        case 1: r = new W(std::in_place, k.size(), al); break;
        case 2: r = new W(std::in_place, k.size(), k.empty() ? T{} : e(0), al); break; // all the same: see the driver
        case 3: r = new W(std::in_place, v.begin(), v.end(), al); break;
        case 4:
            switch (k.size())
            {
            case 0: r = new W(std::in_place, std::initializer_list<T>{}, al); break;
            case 1: r = new W(std::in_place, std::initializer_list<T>{ e(0) }, al); break;
            case 2: r = new W(std::in_place, std::initializer_list<T>{ e(0), e(1) }, al); break;
            case 3: r = new W(std::in_place, std::initializer_list<T>{ e(0), e(1), e(2) }, al); break;
            default: r = new W(std::in_place, std::initializer_list<T>{ e(0), e(1), e(2), e(3), e(4), e(5), e(6) }, al); break;
            }
            break;
        default:
            if constexpr (Pool<A>::defaulted)
            {
                if (how == 5) r = new W(std::in_place);
                else if (how == 6) r = new W(std::in_place, k.size());
                else if (how == 7) r = new W(std::in_place, k.size(), k.empty() ? T{} : e(0));
                else r = new W(std::in_place, v.begin(), v.end());
            }
            break;
        }
        return std::unique_ptr<Arr>(r);
    }

    template<typename T, typename A, bool Sourced = false, bool Select = false>
    Kind kind(const char* name)
    {
        return Kind{ name, sizeof(T), Pool<A>::ledgered, Sourced, Select, Pool<A>::defaulted, &Pool<A>::open, &Pool<A>::close, &El<T>::norm, &make<T, A> };
    }

    const std::vector<Kind>& kinds()
    {
        static std::vector<Kind> k = {
            kind<int32_t, rec<int32_t>>("trivial_array<int32_t> on a recording allocator"),
            kind<unsigned char, rec<unsigned char>>("trivial_array<unsigned char> on a recording allocator"),
            kind<Three, rec<Three>>("trivial_array<3 bytes> on a recording allocator"),
            kind<Mixed, rec<Mixed, CTOR>>("trivial_array<padded struct> on a constructing allocator"),
            kind<Big, rec<Big, SELECT>, false, true>("trivial_array<64 bytes> on a selecting allocator"),
            kind<uint64_t, rec<uint64_t, SELECT>, false, true>("trivial_array<uint64_t> on a selecting allocator"),
            kind<Mixed, shared_alloc<Mixed>, true>("trivial_array<padded struct> on a counted allocator"),
            kind<int32_t, shared_alloc<int32_t>, true>("trivial_array<int32_t> on a counted allocator"),
            kind<double, ctor_alloc<double>, true>("trivial_array<double> on a counted constructing allocator"),
            kind<void*, ref_alloc<void*>, true>("trivial_array<void*> on a referenced allocator"),
            kind<Wide, ref_alloc<Wide>, true>("trivial_array<16 bytes aligned> on a referenced allocator"),
            kind<Wide, heap_alloc<Wide>>("trivial_array<16 bytes aligned> on the heap"),
            kind<bool, std::allocator<bool>>("trivial_array<bool> on std::allocator"),
            kind<uint16_t, std::allocator<uint16_t>>("trivial_array<uint16_t> on std::allocator"),
        };
        return k;
    }

    struct Slot
    {
        std::unique_ptr<Arr> v;
        Keys m;
        int id = -1; // the allocator it was made with, where known
    };

    struct Driver
    {
        const Kind& k;
        Rng& rng;
        Slot slots[4];
        uint64_t trace;
        uint64_t next = 1;
        bool big = false;

        Driver(const Kind& kind_, Rng& r) : k(kind_), rng(r), trace(hash_str(kind_.name)) {}

        uint64_t fresh()
        {
            // mostly distinct, sometimes repeated or extreme
            switch (rng.below(12))
            {
            case 0: return k.norm(0);
            case 1: return k.norm(UINT64_MAX >> 8);
            default: return k.norm(mix(next++) >> 8);
            }
        }

        Keys keys(size_t n)
        {
            Keys r(n);
            for (auto& x : r) x = fresh();
            return r;
        }

        size_t length()
        {
            switch (rng.below(8))
            {
            case 0: return 0;
            case 1: return 1;
            case 2: return size_t(1) << rng.below(7);
            case 3: return rng.range(10, 100);
            case 4: return !big ? 3 : rng.chance(1, 4) ? rng.range(65000, 140000) : rng.range(1000, 30000);
            default: return rng.range(1, 9);
            }
        }

        void check(Slot& s, bool full)
        {
            if (!s.v) return;
            Arr& v = *s.v;
            if (mode().values)
            {
                VF_CHECK(v.size() == s.m.size(), "size", "%s: it has %zu elements, the reference sequence has %zu", k.name, v.size(), s.m.size());
                VF_CHECK(v.empty() == s.m.empty(), "empty", "%s: empty() is %d with %zu elements", k.name, int(v.empty()), s.m.size());
                if (full || s.m.size() < 200)
                {
                    Keys w = v.walk(unsigned(rng.below(4)));
                    VF_CHECK(w.size() == s.m.size(), "iteration", "%s: iterating visits %zu of %zu elements", k.name, w.size(), s.m.size());
                    for (size_t i = 0; i < w.size(); i++)
                        VF_CHECK(w[i] == s.m[i], "elements", "%s: element %zu of %zu is %" PRIu64 " and should be %" PRIu64, k.name, i, w.size(), w[i], s.m[i]);
                    stat("elements_compared", w.size());
                }
                for (int t = 0; t < 3 && !s.m.empty(); t++)
                {
                    const size_t i = t == 0 ? s.m.size() - 1 : rng.below(s.m.size());
                    const unsigned how = unsigned(rng.below(8));
                    const uint64_t x = v.get(i, how);
                    VF_CHECK(x == s.m[i], "access", "%s: element %zu of %zu, accessed in way %u, is %" PRIu64 " and should be %" PRIu64, k.name, i, s.m.size(), how, x, s.m[i]);
                }
            }
            if (mode().ledger) check_block(k.name, v.size() ? v.data() : nullptr, v.size(), k.unit, k.ledgered, s.id);
        }

        void check_all(bool full)
        {
            size_t holding = 0, exist = 0;
            for (auto& s : slots)
            {
                check(s, full);
                if (!s.v) continue;
                exist++;
                holding += s.v->size() > 0;
            }
            check_ledgers(k.name);
            if (mode().ledger && (k.ledgered || k.sourced))
            {
                VF_CHECK(outstanding() <= exist, "more-than-one-block", "%s: %zu arrays hold %zu blocks", k.name, exist, outstanding());
                VF_CHECK(outstanding() >= holding, "block-missing", "%s: %zu arrays with capacity hold %zu blocks", k.name, holding, outstanding());
                stat("ledger_checks");
            }
        }

        void construct(Slot& s)
        {
            unsigned how = unsigned(rng.below(k.defaulted ? 9 : 5));
            const size_t a = rng.below(3);
            Keys m = keys(length());
            if (how == 4) m.resize(std::min<size_t>(m.size(), 3) == m.size() ? m.size() : 7, k.norm(3));
            if (how == 4 && m.size() == 7) m = keys(7);
            if (how == 2 || how == 7) std::fill(m.begin(), m.end(), m.empty() ? 0 : m[0]);
            if (how == 0 || how == 5) m.clear();
            s.v.reset();
            s.v = k.make(how, a, m);
            s.id = !k.ledgered ? -1 : how < 5 ? int(a) : 0;
            if (how == 1 || how == 6)
                for (size_t i = 0; i < m.size() && i < s.v->size(); i++) s.v->set(i, m[i], unsigned(rng.below(4)));
            s.m = std::move(m);
            stat("constructions");
            trace = mix(trace ^ how ^ (s.m.size() << 8));
        }

        void mutate(Slot& s, unsigned op)
        {
            Arr& v = *s.v;
            const size_t n = s.m.size();
            switch (op)
            {
            case 0:
            {
                const size_t to = rng.chance(1, 3) ? n + rng.below(3) : length();
                v.resize(to);
                if (mode().values) VF_CHECK(v.size() == to, "size", "%s: resized from %zu to %zu, it has %zu elements", k.name, n, to, v.size());
                s.m.resize(to, 0);
                // the common prefix stays
                if (mode().values)
                    for (size_t i = 0; i < std::min(n, to); i++) VF_CHECK(v.get(i, 0) == s.m[i], "elements", "%s: resizing from %zu to %zu changed element %zu", k.name, n, to, i);
                for (size_t i = n; i < to && i < v.size(); i++) { s.m[i] = fresh(); v.set(i, s.m[i], unsigned(i)); }
                stat("resizes");
                break;
            }
            case 1:
            {
                Keys to = keys(rng.chance(1, 3) ? n : length());
                v.assign_range(to);
                s.m = std::move(to);
                stat("assigned_ranges");
                break;
            }
            case 2:
            {
                if (!n) return;
                const size_t i = rng.below(n);
                const uint64_t x = fresh();
                v.set(i, x, unsigned(rng.below(4)));
                s.m[i] = x;
                stat("writes");
                break;
            }
            }
            trace = mix(trace ^ op ^ (s.m.size() << 6));
        }

        void transfer(Slot& s, unsigned op)
        {
            Slot& o = slots[rng.below(4)];
            if (!o.v) return;
            const bool self = &s == &o;
            switch (op)
            {
            case 0:
                if (self) return;
                s.v.reset();
                s.v = o.v->copy();
                s.m = o.m;
                s.id = k.select ? -1 : o.id;
                stat("copies");
                break;
            case 1:
                if (self) return;
                s.v.reset();
                s.v = o.v->moved();
                s.m = std::move(o.m);
                o.m.clear();
                s.id = o.id;
                stat("moves");
                break;
            case 2: case 3:
            {
                if (self) return;
                const size_t a = rng.below(3);
                s.v.reset();
                if (op == 2) { s.v = o.v->copy_with(a); s.m = o.m; stat("copies_to_another_allocator"); }
                else { s.v = o.v->move_with(a); s.m = std::move(o.m); o.m.clear(); stat("moves_to_another_allocator"); }
                s.id = k.ledgered ? int(a) : -1;
                break;
            }
            case 4:
                s.v->assign(*o.v);
                s.m = o.m;
                if (!self) s.id = -1;
                stat(self ? "self_assignments" : "assignments");
                break;
            default:
                s.v->assign_moved(*o.v);
                if (!self) { s.m = std::move(o.m); o.m.clear(); s.id = -1; }
                stat(self ? "self_move_assignments" : "move_assignments");
                break;
            }
            trace = mix(trace ^ (op + 100) ^ (s.m.size() << 6));
            check(s, true);
            if (!self) check(o, true);
        }

        void run()
        {
            big = rng.chance(1, 200);
            ledger().reset();
            ledger().nullForZero = rng.chance(1, 2);
            leafs::world().reset();
            k.open();
            for (auto& s : slots) { s.m.clear(); construct(s); }
            const size_t steps = rng.range(5, big ? 60 : 120);
            const unsigned copying = mode().mix == 1 ? 6 : mode().mix == 2 ? 4 : 2; // of 10
            for (size_t i = 0; i < steps; i++)
            {
                Slot& s = slots[rng.below(4)];
                vf::detail("%s, step %zu", k.name, i);
                if (rng.chance(copying, 10))
                {
                    const unsigned op = unsigned(rng.below(7));
                    if (op == 6) construct(s);
                    else transfer(s, op);
                }
                else mutate(s, unsigned(rng.below(3)));
                check(s, rng.chance(1, 4));
                if (rng.chance(1, 6) || mode().mix) check_all(false);
                stat("operations");
            }
            check_all(true);
            stat_max("max:elements", std::max({ slots[0].m.size(), slots[1].m.size(), slots[2].m.size(), slots[3].m.size() }));
            for (auto& s : slots) { s.v.reset(); }
            check_ledgers(k.name);
            if (mode().ledger && (k.ledgered || k.sourced))
                VF_CHECK(outstanding() == 0, "memory-kept", "%s: %zu blocks remain after all arrays are gone", k.name, outstanding());
            k.close();
        }
    };
}

static void run_case(uint64_t idx, Rng& rng)
{
    const Kind& k = kinds()[idx % kinds().size()];
    Driver d(k, rng);
    d.run();
    sig(d.trace);
    if (idx < kinds().size()) sample(k.name);
    stat((std::string("cases:") + k.name).c_str());
    digest(d.trace);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c21", run_case); }
