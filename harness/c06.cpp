// C06: exact routing of fallback and segragator compositions, and of those made by the builders.
// Every composition is over recording leaves; the expected sequence of leaf calls is computed from the list the composition was described by.
#include "leaf.h"
#include "vf.h"
#include <ktl/ktl.h>
#include <functional>
#include <memory>

using namespace vf;
using leafs::Event;
using leafs::Op;

namespace
{
    // ---- descriptions: each has the allocator's type and, independently, its model
    struct Node
    {
        int kind; // 0 leaf, 1 in order, 2 by thresholds
        int tag = -1;
        std::vector<size_t> thresholds;
        std::vector<Node> kids;
    };

    template<int Tag, unsigned Flags = leafs::OWNS>
    struct L
    {
        using type = leafs::leaf<Tag, Flags>;
        static Node model() { return Node{ 0, Tag, {}, {} }; }
    };
    template<typename P, typename F>
    struct FB
    {
        using type = ktl::fallback<typename P::type, typename F::type>;
        static Node model() { return Node{ 1, -1, {}, { P::model(), F::model() } }; }
    };
    template<size_t Th, typename P, typename F>
    struct SG
    {
        using type = ktl::segragator<Th, typename P::type, typename F::type>;
        static Node model() { return Node{ 2, -1, { Th }, { P::model(), F::model() } }; }
    };
    template<bool Min, typename... Ds>
    struct FBL
    {
        using type = std::conditional_t<Min, ktl::fallback_builder_min<typename Ds::type...>, ktl::fallback_builder_max<typename Ds::type...>>;
        static Node model() { return Node{ 1, -1, {}, { Ds::model()... } }; }
    };
    template<size_t N>
    struct T { using type = ktl::threshold<N>; static constexpr size_t value = N; static constexpr bool is_threshold = true; };
    template<typename D, typename = void>
    struct is_t : std::false_type {};
    template<typename D>
    struct is_t<D, std::enable_if_t<D::is_threshold>> : std::true_type {};
    template<bool Min, typename... Ds>
    struct SGL
    {
        using type = std::conditional_t<Min, ktl::segragator_builder_min<typename Ds::type...>, ktl::segragator_builder_max<typename Ds::type...>>;
        template<typename D>
        static void add(Node& n)
        {
            if constexpr (is_t<D>::value) n.thresholds.push_back(D::value);
            else n.kids.push_back(D::model());
        }
        static Node model()
        {
            Node n{ 2, -1, {}, {} };
            (add<Ds>(n), ...);
            return n;
        }
    };

    struct Alloc
    {
        virtual ~Alloc() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
    };
    template<typename A>
    struct RawA : Alloc
    {
        A a;
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(p, n); }
    };
    template<typename A>
    struct TypedA : Alloc // of bytes
    {
        ktl::type_allocator<unsigned char, ktl::shared<A>> a;
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(static_cast<unsigned char*>(p), n); }
    };

    struct Entry
    {
        std::string name;
        Node model;
        std::function<std::unique_ptr<Alloc>()> make;
    };
    std::vector<Entry>& entries()
    {
        static auto* e = new std::vector<Entry>;
        return *e;
    }
    template<typename D>
    void reg(const char* name)
    {
        entries().push_back({ name, D::model(), [] { return std::unique_ptr<Alloc>(new RawA<typename D::type>); } });
        entries().push_back({ std::string("typed shared ") + name, D::model(), [] { return std::unique_ptr<Alloc>(new TypedA<typename D::type>); } });
    }

    template<int N> using A = L<N>;
    template<int N> using B = L<N, 0u>;                                  // last in a fallback: needs no owns()
    template<int N> using M = L<N, leafs::OWNS | leafs::MAXSZ>;
    template<int N> using K = L<N, leafs::OWNS | leafs::CTOR>;
    template<int N> using MK = L<N, leafs::OWNS | leafs::MAXSZ | leafs::CTOR>;

    void build()
    {
        reg<FB<A<0>, B<1>>>("fallback");
        reg<FB<M<0>, M<1>>>("fallback max");
        reg<FB<FB<A<0>, A<1>>, B<2>>>("fallback left");
        reg<FB<A<0>, FB<M<1>, B<2>>>>("fallback right");
        reg<FB<FB<A<0>, MK<1>>, FB<K<2>, B<3>>>>("fallback both");
        reg<SG<0, A<0>, A<1>>>("segragator 0");
        reg<SG<1, B<0>, B<1>>>("segragator 1");
        reg<SG<100, A<0>, B<1>>>("segragator 100");
        reg<SG<64, M<0>, M<1>>>("segragator 64 max");
        reg<SG<SIZE_MAX, A<0>, A<1>>>("segragator all");
        reg<SG<SIZE_MAX - 1, A<0>, A<1>>>("segragator all but one");
        reg<SG<(size_t(1) << 32), A<0>, A<1>>>("segragator 4G");
        reg<SG<(size_t(1) << 32) + 16, A<0>, A<1>>>("segragator 4G+16");
        reg<SG<16, A<0>, SG<17, A<1>, A<2>>>>("segragator adjacent right");
        reg<SG<17, SG<16, A<0>, A<1>>, A<2>>>("segragator adjacent left");
        reg<SG<64, SG<128, A<0>, A<1>>, A<2>>>("segragator inner out of range");
        reg<SG<64, FB<A<0>, B<1>>, FB<A<2>, B<3>>>>("segragator of fallbacks");
        reg<FB<SG<64, A<0>, M<1>>, SG<32, B<2>, B<3>>>>("fallback of segragators");
        reg<FB<SG<64, A<0>, A<1>>, B<2>>>("fallback of segragator");
        reg<SG<40, A<0>, FB<SG<80, A<1>, A<2>>, B<3>>>>("segragator fallback segragator");

        reg<FBL<true, A<0>>>("fmin1");
        reg<FBL<true, A<0>, B<1>>>("fmin2");
        reg<FBL<true, A<0>, A<1>, B<2>>>("fmin3");
        reg<FBL<true, A<0>, M<1>, A<2>, B<3>>>("fmin4");
        reg<FBL<true, A<0>, A<1>, A<2>, A<3>, B<4>>>("fmin5");
        reg<FBL<true, M<0>, M<1>, M<2>, M<3>, M<4>, M<5>>>("fmin6");
        reg<FBL<true, A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, B<6>>>("fmin7");
        reg<FBL<true, A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, B<7>>>("fmin8");
        reg<FBL<true, A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, B<8>>>("fmin9");
        reg<FBL<true, A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, A<8>, A<9>, A<10>, A<11>, A<12>, A<13>, A<14>, A<15>, B<16>>>("fmin17");
        reg<FBL<false, A<0>>>("fmax1");
        reg<FBL<false, A<0>, B<1>>>("fmax2");
        reg<FBL<false, A<0>, A<1>, B<2>>>("fmax3");
        reg<FBL<false, A<0>, M<1>, A<2>, B<3>>>("fmax4");
        reg<FBL<false, A<0>, A<1>, A<2>, A<3>, B<4>>>("fmax5");
        reg<FBL<false, M<0>, M<1>, M<2>, M<3>, M<4>, M<5>>>("fmax6");
        reg<FBL<false, A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, B<6>>>("fmax7");
        reg<FBL<false, A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, B<7>>>("fmax8");
        reg<FBL<false, A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, B<8>>>("fmax9");
        reg<FBL<false, A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, A<8>, A<9>, A<10>, A<11>, A<12>, A<13>, A<14>, A<15>, B<16>>>("fmax17");

        reg<SGL<true, A<0>>>("smin1");
        reg<SGL<true, A<0>, T<16>, B<1>>>("smin2");
        reg<SGL<true, A<0>, T<16>, A<1>, T<17>, B<2>>>("smin3");
        reg<SGL<true, B<0>, T<8>, B<1>, T<64>, B<2>, T<256>, B<3>>>("smin4");
        reg<SGL<true, A<0>, T<0>, A<1>, T<1>, A<2>, T<2>, A<3>, T<3>, B<4>>>("smin5");
        reg<SGL<true, M<0>, T<10>, M<1>, T<20>, M<2>, T<30>, M<3>, T<40>, M<4>, T<50>, M<5>>>("smin6");
        reg<SGL<true, A<0>, T<10>, A<1>, T<20>, A<2>, T<30>, A<3>, T<40>, A<4>, T<50>, A<5>, T<60>, B<6>>>("smin7");
        reg<SGL<true, A<0>, T<10>, A<1>, T<20>, A<2>, T<30>, A<3>, T<40>, A<4>, T<50>, A<5>, T<60>, A<6>, T<70>, B<7>>>("smin8");
        reg<SGL<true, A<0>, T<10>, A<1>, T<20>, A<2>, T<30>, A<3>, T<40>, A<4>, T<50>, A<5>, T<60>, A<6>, T<70>, A<7>, T<(size_t(1) << 33)>, B<8>>>("smin9");
        reg<SGL<false, A<0>>>("smax1");
        reg<SGL<false, A<0>, T<16>, B<1>>>("smax2");
        reg<SGL<false, A<0>, T<16>, A<1>, T<17>, B<2>>>("smax3");
        reg<SGL<false, B<0>, T<8>, B<1>, T<64>, B<2>, T<256>, B<3>>>("smax4");
        reg<SGL<false, A<0>, T<0>, A<1>, T<1>, A<2>, T<2>, A<3>, T<3>, B<4>>>("smax5");
        reg<SGL<false, M<0>, T<10>, M<1>, T<20>, M<2>, T<30>, M<3>, T<40>, M<4>, T<50>, M<5>>>("smax6");
        reg<SGL<false, A<0>, T<10>, A<1>, T<20>, A<2>, T<30>, A<3>, T<40>, A<4>, T<50>, A<5>, T<60>, B<6>>>("smax7");
        reg<SGL<false, A<0>, T<10>, A<1>, T<20>, A<2>, T<30>, A<3>, T<40>, A<4>, T<50>, A<5>, T<60>, A<6>, T<70>, B<7>>>("smax8");
        reg<SGL<false, A<0>, T<10>, A<1>, T<20>, A<2>, T<30>, A<3>, T<40>, A<4>, T<50>, A<5>, T<60>, A<6>, T<70>, A<7>, T<(size_t(1) << 33)>, B<8>>>("smax9");
        reg<SGL<false, FBL<true, A<0>, A<1>, B<2>>, T<32>, A<3>, T<96>, FBL<false, A<4>, SG<200, A<5>, A<6>>, B<7>>>>("smax of fallbacks");
        reg<FBL<true, SGL<true, A<0>, T<24>, A<1>, T<48>, A<2>>, A<3>, SGL<false, A<4>, T<100>, A<5>, T<120>, B<6>>>>("fmin of segragators");
    }

    // Walks the model with what the leaves answered; returns the block
    struct Walk
    {
        const std::vector<Event>& log;
        size_t pos = 0;
        std::string why;

        const void* leaf(int tag, size_t n)
        {
            if (pos >= log.size()) { why = fmt("leaf %d was never asked for %zu bytes", tag, n); return nullptr; }
            const Event& e = log[pos++];
            if (e.op != Op::Alloc || e.tag != tag || e.n != n)
                why = fmt("expected leaf %d to be asked for %zu bytes, but leaf %d saw operation %d of %zu bytes", tag, n, e.tag, int(e.op), e.n);
            return e.p;
        }
        const void* run(const Node& m, size_t n, int* where)
        {
            if (!why.empty()) return nullptr;
            if (m.kind == 0)
            {
                const void* p = leaf(m.tag, n);
                if (p) *where = m.tag;
                return p;
            }
            if (m.kind == 1)
            {
                for (const Node& k : m.kids)
                {
                    const void* p = run(k, n, where);
                    if (p || !why.empty()) return p;
                }
                return nullptr;
            }
            size_t i = 0;
            while (i < m.thresholds.size() && n > m.thresholds[i]) i++;
            return run(m.kids[i], n, where);
        }
    };

    void thresholds_of(const Node& n, std::vector<size_t>& out)
    {
        out.insert(out.end(), n.thresholds.begin(), n.thresholds.end());
        for (auto& k : n.kids) thresholds_of(k, out);
    }

    struct Held { void* p; size_t n; int tag; };

    void run_case(uint64_t idx, Rng& rng)
    {
        if (entries().empty()) build();
        const Entry& e = entries()[idx % entries().size()];
        detail("%s", e.name.c_str());
        stat(("cases:" + e.name).c_str());
        leafs::World& w = leafs::world();
        w.reset();
        w.failSeed = rng.next();
        const bool heavy = rng.chance(1, 4);
        for (auto& c : w.cfg)
        {
            if (rng.chance(1, 2)) c.cap = rng.range(0, 2000);
            if (rng.chance(1, 3)) c.maxSingle = rng.range(0, 200);
            if (rng.chance(1, 2)) c.failNum = uint32_t(rng.below(heavy ? 60000 : 30000));
            if (rng.chance(1, 3)) c.maxReport = rng.range(0, 300);
        }
        std::vector<size_t> interesting;
        thresholds_of(e.model, interesting);
        auto a = e.make();
        w.logging = true;
        std::vector<Held> held;
        const size_t ops = rng.range(10, 200);
        uint64_t trace = hash_str(e.name.c_str()), served = 0;
        for (size_t i = 0; i < ops; i++)
        {
            w.log.clear();
            if (held.empty() || rng.chance(3, 5))
            {
                size_t n;
                if (!interesting.empty() && rng.chance(1, 2)) n = rng.pick(interesting) + rng.below(5) - 2;
                else if (rng.chance(1, 20)) n = rng.next() >> rng.below(40);
                else n = rng.below(rng.chance(1, 2) ? 20 : 300);
                void* p = a->allocate(n);
                Walk wk{ w.log };
                int tag = -1;
                const void* q = wk.run(e.model, n, &tag);
                if (wk.why.empty() && wk.pos != w.log.size()) wk.why = fmt("after the request was decided leaf %d still saw operation %d", w.log[wk.pos].tag, int(w.log[wk.pos].op));
                VF_CHECK(wk.why.empty(), "wrong-route", "allocating %zu bytes: %s", n, wk.why.c_str());
                VF_CHECK(p == q, "wrong-block", "allocating %zu bytes returned %p, but the source gave %p", n, p, q);
                stat("requests");
                if (p)
                {
                    held.push_back({ p, n, tag });
                    served++;
                    stat("served");
                    if (w.log.size() > 1) stat("served_after_refusals");
                }
                else stat("refused");
                trace = mix(trace ^ n) + uint64_t(tag);
            }
            else
            {
                const size_t k = rng.chance(1, 3) ? held.size() - 1 : rng.below(held.size());
                Held h = held[k];
                held.erase(held.begin() + ptrdiff_t(k));
                a->deallocate(h.p, h.n);
                VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s", w.error.c_str());
                VF_CHECK(w.log.size() == 1 && w.log[0] == (Event{ Op::Free, h.tag, w.log[0].inst, h.p, h.n }), "wrong-return",
                    "%zu bytes of leaf %d were returned with %zu operations, the first %d at leaf %d of %zu bytes", h.n, h.tag, w.log.size(), w.log.empty() ? -1 : int(w.log[0].op), w.log.empty() ? -1 : w.log[0].tag, w.log.empty() ? 0 : w.log[0].n);
                stat("returns");
                trace = mix(trace ^ k) + 7;
            }
        }
        while (!held.empty())
        {
            Held h = held.back();
            held.pop_back();
            w.log.clear();
            a->deallocate(h.p, h.n);
            VF_CHECK(w.error.empty() && w.log.size() == 1 && w.log[0].op == Op::Free && w.log[0].tag == h.tag && w.log[0].n == h.n, "wrong-return", "%zu bytes of leaf %d were returned elsewhere", h.n, h.tag);
        }
        if (served) sig(trace);
        digest(trace);
        sample(fmt("%s: %zu operations, %llu served", e.name.c_str(), ops, (unsigned long long)served));
        w.logging = false;
        a.reset();
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c06", run_case); }
