// C38: what operations cost. Every step of the library (each edge of its control flow, and every 16 bytes which are copied or filled) is counted by
// instrumentation. What an operation costs must not grow with what happened before: the most expensive one among thousands of outstanding blocks
// or elements is compared with the most expensive one among a few. Where the documentation grants time in proportion to something, it is bounded by it.
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <vector>
#include <sys/mman.h>

#if defined(__clang__)
#define UNMETERED __attribute__((no_sanitize("coverage"), noinline))
#else
#define UNMETERED __attribute__((no_sanitize_coverage, noinline))
#endif

static volatile uint64_t g_cost = 0; // the steps are added to it behind the back of the optimiser
static uint64_t g_handed = 0;  // bytes the sources gave
static uint64_t g_asked = 0;   // requests which reached them

extern "C"
{
    UNMETERED void __sanitizer_cov_trace_pc() { g_cost = g_cost + 1; }

    // All copies and fills of memory come here
    UNMETERED void* memmove(void* d, const void* s, size_t n) noexcept
    {
        g_cost = g_cost + 1 + n / 16;
        char* a = static_cast<char*>(d);
        const char* b = static_cast<const char*>(s);
        if (a <= b) for (size_t i = 0; i < n; i++) { a[i] = b[i]; asm volatile("" ::: "memory"); }
        else for (size_t i = n; i-- > 0;) { a[i] = b[i]; asm volatile("" ::: "memory"); }
        return d;
    }
    UNMETERED void* memcpy(void* __restrict d, const void* __restrict s, size_t n) noexcept { return memmove(d, s, n); }
    UNMETERED void* memset(void* d, int v, size_t n) noexcept
    {
        g_cost = g_cost + 1 + n / 16;
        for (size_t i = 0; i < n; i++) { static_cast<char*>(d)[i] = char(v); asm volatile("" ::: "memory"); }
        return d;
    }
    UNMETERED int memcmp(const void* x, const void* y, size_t n) noexcept
    {
        size_t i = 0;
        const unsigned char *a = static_cast<const unsigned char*>(x), *b = static_cast<const unsigned char*>(y);
        while (i < n && a[i] == b[i]) { i++; asm volatile("" ::: "memory"); }
        g_cost = g_cost + 1 + i / 16;
        return i < n ? int(a[i]) - int(b[i]) : 0;
    }
}

using namespace vf;
using namespace ktl;

namespace
{
    // ------------------------------------------------------------------------------- a source whose operations all take one step
    enum : size_t { REGION = size_t(256) << 20 };
    char* g_region[2];
    size_t g_used[2];

    template<int Tag>
    class slab
    {
    public:
        typedef size_t size_type;
        UNMETERED void* allocate(size_t n) noexcept
        {
            g_asked++;
            g_handed += n;
            const size_t at = g_used[Tag], to = at + (n + 31) / 32 * 32;
            if (to > REGION) return nullptr;
            g_used[Tag] = to;
            return g_region[Tag] + at;
        }
        UNMETERED void deallocate(void*, size_t) noexcept {}
        UNMETERED bool owns(void* p) const noexcept { return p >= g_region[Tag] && p < g_region[Tag] + g_used[Tag]; }
        UNMETERED bool operator==(const slab&) const noexcept { return true; }
        UNMETERED bool operator!=(const slab&) const noexcept { return false; }
    };

    template<typename T>
    struct typed_slab
    {
        typedef T value_type;
        slab<0> s;
        typed_slab() = default;
        template<typename U> typed_slab(const typed_slab<U>&) noexcept {}
        T* allocate(size_t n) noexcept { return static_cast<T*>(s.allocate(n * sizeof(T))); }
        void deallocate(T* p, size_t n) noexcept { s.deallocate(p, n * sizeof(T)); }
        bool operator==(const typed_slab&) const noexcept { return true; }
        bool operator!=(const typed_slab&) const noexcept { return false; }
    };

    struct sink
    {
        template<typename T> sink& operator<<(const T&) noexcept { said++; return *this; }
        uint64_t said = 0;
    };

    // ------------------------------------------------------------------------------- the meter
    enum Op { ALLOC, FREE, OWNS, OWNS_NOT, MAX, COPY, EQUAL, MAKE,
              INDEX, PUSH, POP, EMPLACE, LAST_ERASED, END_EMPLACED, NEAR_ERASED, NEAR_EMPLACED, RESERVE, MOVED, MOVE_ASSIGNED, SWAPPED, ENDS, PEEK, INSERT, REMOVE, CLEARED, DROPPED,
              COPIED, GROWN, FOUND, OPS };
    const char* const OP[] = { "allocating", "returning a block", "asking who owns a block", "asking about foreign memory", "asking for the maximum", "copying and dropping a handle", "comparing", "making one",
              "accessing an element", "adding an element within the capacity", "removing the last element", "emplacing an element within the capacity", "erasing the last element", "emplacing at the end",
              "erasing near the end", "emplacing near the end", "reserving what there is", "moving a container", "assigning a container by moving", "exchanging two containers", "asking for its ends and size", "looking at the root",
              "inserting into a heap", "removing the root", "clearing", "dropping a container", "copying a container", "growing", "searching" };

    struct Meter
    {
        uint64_t most[OPS] = {};
        uint64_t times[OPS] = {};
        void add(Op op, uint64_t cost) noexcept { most[op] = std::max(most[op], cost); times[op]++; }
    };
    Meter* g_meter;

    template<typename F>
    uint64_t cost_of(F&& go)
    {
        const uint64_t before = g_cost;
        go();
        return g_cost - before;
    }
    template<typename F>
    void meter(Op op, F&& go) { g_meter->add(op, cost_of(go)); }
    // In proportion to n
    template<typename F>
    void meter_linear(Op op, const char* name, size_t n, uint64_t each, F&& go)
    {
        const uint64_t c = cost_of(go);
        VF_CHECK(c <= 400 + each * n, "not-linear", "%s: %s takes %zu steps for %zu elements or blocks", name, OP[op], size_t(c), n);
        stat("linear_operations");
    }

    // What takes constant time may not take much more of it among many than among few
    void judge(const char* name, const Meter& few, const Meter& many, size_t n)
    {
        for (int i = 0; i < OPS; i++)
        {
            if (!many.times[i] || !few.times[i]) continue;
            const bool logarithmic = i == INSERT || i == REMOVE;
            const uint64_t limit = (logarithmic ? 4 : 2) * few.most[i] + 64;
            VF_CHECK(many.most[i] <= limit, logarithmic ? "not-logarithmic" : "not-constant", "%s: %s takes up to %zu steps among a few, but %zu among %zu", name, OP[i], size_t(few.most[i]), size_t(many.most[i]), n);
            if (ctx().verbose) printf("%s: %s %zu %zu (%zu)\n", name, OP[i], size_t(few.most[i]), size_t(many.most[i]), size_t(many.times[i]));
            stat("comparisons");
            stat("operations_metered", many.times[i]);
        }
    }

    // ------------------------------------------------------------------------------- allocators
    struct Any
    {
        virtual ~Any() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) = 0;
        virtual size_t max_size() = 0;
        virtual bool handle() = 0; // copies one, if it is a handle
        virtual bool equal() = 0;
    };

    template<typename A, typename = void> struct unit_of { static constexpr size_t value = 1; };
    template<typename A> struct unit_of<A, std::void_t<typename A::value_type>> { static constexpr size_t value = sizeof(typename A::value_type); };
    template<typename A, typename = void> struct can_owns : std::false_type {};
    template<typename A> struct can_owns<A, std::void_t<decltype(std::declval<const A&>().owns(std::declval<void*>()))>> : std::true_type {};
    template<typename A, typename = void> struct can_max : std::false_type {};
    template<typename A> struct can_max<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};

    template<typename A, bool Handle>
    struct Holder : Any
    {
        A a;
        template<typename... X> explicit Holder(X&&... x) : a(std::forward<X>(x)...) {}
        void* allocate(size_t n) override { return a.allocate(n / unit_of<A>::value); }
        void deallocate(void* p, size_t n) override
        {
            if constexpr (unit_of<A>::value > 1) a.deallocate(static_cast<typename A::value_type*>(p), n / unit_of<A>::value);
            else a.deallocate(p, n);
        }
        int owns(void* p) override
        {
            if constexpr (unit_of<A>::value > 1) return -1;
            else if constexpr (can_owns<A>::value) return a.owns(p);
            else return -1;
        }
        size_t max_size() override
        {
            if constexpr (can_max<A>::value) return a.max_size();
            else return 0;
        }
        bool handle() override
        {
            if constexpr (Handle) { A b(a); A c(b); b = c; return b == a; }
            else return false;
        }
        bool equal() override
        {
            if constexpr (Handle) { const A& b = a; return a == b && !(a != b); }
            else return false;
        }
    };

    struct Kind
    {
        std::string name;
        size_t unit;
        size_t largest;   // sizes up to this
        bool arena;       // what it has is used up
        bool linear;      // returning takes time in proportion to the instances
        std::function<std::unique_ptr<Any>()> make;
        size_t extra;     // bytes beyond those requested, per request, or all a request takes of the sources
        size_t fixed;
        bool anySize;     // sizes up to any, which only move a position or are passed on
    };
    std::vector<Kind>& kinds() { static auto* k = new std::vector<Kind>; return *k; }

    struct Pair { freelist<0, 64, slab<0>> list; };
    stack<(4 << 20)>* g_stack;
    sink* g_sink;

    template<typename A, bool Handle, typename... X>
    void add(const char* name, size_t largest, bool arena, bool linear, size_t extra, size_t fixed, X... x)
    {
        kinds().push_back({ name, unit_of<A>::value, largest, arena, linear, [=] { return std::unique_ptr<Any>(new Holder<A, Handle>(x()...)); }, extra, fixed, largest == 200 && !linear && extra == 0 });
    }

    using mix_list = segragator<64, freelist<0, 64, slab<0>>, slab<1>>;
    template<int Tag> struct global_slab : slab<Tag> {};

    void build()
    {
        for (char*& r : g_region) r = static_cast<char*>(mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        g_stack = new stack<(4 << 20)>;
        g_sink = new sink;
        auto out = []() -> sink& { return *g_sink; };
        static auto* other = new slab<1>;
        add<linear_allocator<(4 << 20)>, false>("linear_allocator", 200, true, false, 0, 0);
        add<stack_allocator<(4 << 20)>, true>("stack_allocator", 200, true, false, 0, 0, [] { *g_stack = {}; return g_stack; });
        add<mallocator, true>("mallocator", 200, false, false, 0, 0);
        add<freelist<0, 64, slab<0>>, false>("freelist", 64, false, false, 0, 64);
        add<freelist<16, 256, slab<0>>, false>("freelist with a minimum", 256, false, false, 0, 256);
        add<freelist<0, 64, freelist<0, 128, slab<0>>>, false>("freelist<freelist>", 64, false, false, 0, 128);
        add<threaded<slab<0>>, false>("threaded", 200, false, false, 0, 0);
        add<threaded<freelist<0, 64, slab<0>>>, false>("threaded<freelist>", 64, false, false, 0, 64);
        add<shared<slab<0>>, true>("shared", 200, false, false, 0, 0);
        add<atomic_shared<threaded<mix_list>>, true>("atomic_shared<threaded<segragator<freelist>>>", 200, false, false, 0, 64);
        add<type_allocator<long, shared<mix_list>>, true>("type_allocator<shared<segragator<freelist>>>", 200, false, false, 0, 64);
        add<fallback<linear_allocator<4096>, slab<0>>, false>("fallback<linear>", 200, false, false, 0, 0);
        add<fallback<freelist<0, 64, slab<0>>, slab<1>>, false>("fallback<freelist>", 200, false, false, 0, 64);
        add<segragator<100, slab<0>, freelist<100, 200, slab<1>>>, false>("segragator<source, freelist>", 200, false, false, 0, 200);
        add<segragator_builder_max<freelist<0, 32, slab<0>>, threshold<32>, freelist<32, 64, slab<0>>, threshold<64>, freelist<64, 128, slab<0>>, threshold<128>, slab<1>>, false>("segragator_builder", 200, false, false, 0, 128);
        add<overflow<slab<0>, sink>, false>("overflow", 200, false, false, 160, 0, out);
        add<overflow<freelist<0, 256, slab<0>>, sink>, false>("overflow<freelist>", 100, false, false, 0, 256, out);
        add<shared<overflow<threaded<mix_list>, sink>>, true>("shared<overflow<threaded<segragator<freelist>>>>", 200, false, false, 160, 64, out);
        add<reference<freelist<0, 128, slab<0>>>, true>("reference<freelist>", 128, false, false, 0, 128, []() -> freelist<0, 128, slab<0>>& { return *new freelist<0, 128, slab<0>>; /* never goes, as do the arenas it takes from */ });
        add<type_allocator<int, reference<slab<1>>>, true>("type_allocator<reference>", 200, false, false, 0, 0, []() -> slab<1>& { return *other; });
        add<global<slab<0>>, true>("global", 200, false, false, 0, 0);
        add<cascading<linear_allocator<1024>>, false>("cascading<linear>", 200, false, true, 0, 0);
        add<cascading<linear_allocator<(1 << 16)>>, false>("cascading<large linear>", 200, false, true, 0, 0);
        add<fallback<cascading<linear_allocator<512>>, slab<0>>, false>("fallback<cascading>", 600, false, true, 0, 0);
    }

    void allocator_history(const Kind& k, Rng& rng, size_t n, size_t largest, uint64_t& trace)
    {
        const bool linear = k.linear;
        for (size_t& u : g_used) u = 0;
        std::unique_ptr<Any> a;
        meter(MAKE, [&] { a = k.make(); });
        std::vector<std::pair<void*, size_t>> live;
        live.reserve(n);
        size_t outstanding = 0;
        const size_t favourite = rng.range(1, largest); // often the same size
        int onStack = 0;
        auto allocate = [&] {
            size_t s = rng.chance(1, 2) ? favourite : rng.range(1, largest);
            s = std::max(s / k.unit * k.unit, k.unit);
            void* p = nullptr;
            const uint64_t handed = g_handed;
            meter(ALLOC, [&] { p = a->allocate(s); });
            const uint64_t took = g_handed - handed;
            if (!p) { stat("refusals"); return; }
            VF_CHECK(took <= std::max(s + k.extra, k.fixed + k.extra), "memory", "%s: %zu bytes of the sources were taken for a request of %zu", k.name.c_str(), size_t(took), s);
            live.push_back({ p, s });
            outstanding = std::max(outstanding, live.size());
        };
        auto give_back = [&](size_t i) {
            const auto b = live[i];
            live[i] = live.back();
            live.pop_back();
            const uint64_t c = cost_of([&] { a->deallocate(b.first, b.second); });
            if (!linear) g_meter->add(FREE, c);
            else VF_CHECK(c <= 400 + 60 * outstanding, "not-linear", "%s: returning takes %zu steps with %zu blocks outstanding", k.name.c_str(), size_t(c), outstanding);
        };
        auto ask = [&](void* p, Op op) {
            int r = 0;
            const uint64_t c = cost_of([&] { r = a->owns(p); });
            if (r < 0) return;
            if (!linear) g_meter->add(op, c);
            else VF_CHECK(c <= 400 + 60 * outstanding, "not-linear", "%s: asking takes %zu steps with %zu blocks outstanding", k.name.c_str(), size_t(c), outstanding);
        };
        auto others = [&] {
            if (!live.empty()) ask(live[rng.below(live.size())].first, OWNS);
            ask(&onStack, OWNS_NOT);
            bool did = false;
            if (!linear) meter(MAX, [&] { a->max_size(); });
            const uint64_t c = cost_of([&] { did = a->handle(); });
            if (did) { g_meter->add(COPY, c); meter(EQUAL, [&] { a->equal(); }); }
        };
        for (size_t i = 0; i < n; i++) allocate();
        for (size_t i = 0; i < n / 2; i++)
        {
            if (rng.chance(1, 2)) allocate();
            else if (!live.empty()) give_back(rng.chance(1, 3) ? live.size() - 1 : rng.below(live.size()));
            if (i % 8 == 0) others();
        }
        const size_t keep = rng.below(4) * live.size() / 4;
        const unsigned order = unsigned(rng.below(3));
        while (live.size() > keep) give_back(order == 0 ? live.size() - 1 : order == 1 ? 0 : rng.below(live.size()));
        for (size_t i = 0; i < n / 2; i++) allocate();
        others();
        trace = mix(trace ^ live.size() ^ (favourite << 16) ^ (uint64_t(order) << 40));
        while (!live.empty()) give_back(rng.chance(1, 2) ? live.size() - 1 : rng.below(live.size()));
        meter_linear(DROPPED, k.name.c_str(), n, 60, [&] { a.reset(); });
        stat("blocks", n);
    }

    void allocators(const Kind& k, Rng& rng)
    {
        uint64_t trace = hash_str(k.name.c_str());
        Meter few, many;
        g_meter = &few;
        for (int i = 0; i < 40; i++) allocator_history(k, rng, 24, k.largest, trace);
        g_meter = &many;
        const size_t n = rng.range(1000, 6000);
        allocator_history(k, rng, n, k.largest, trace);
        judge(k.name.c_str(), few, many, n);
        if (k.anySize)
        {
            // Large blocks cost no more than small ones
            Meter large;
            g_meter = &large;
            allocator_history(k, rng, 24, 60000, trace);
            judge((k.name + ", large blocks").c_str(), few, large, 24);
            stat("histories_with_large_blocks");
        }
        sig(trace);
        stat(("cases:" + k.name).c_str());
    }

    // ------------------------------------------------------------------------------- containers
    struct wide { int value; int more[5]; };
    inline int key(int v) { return v; }
    inline int key(const wide& v) { return v.value; }
    inline bool operator<(const wide& a, const wide& b) { return a.value < b.value; }
    inline bool operator==(const wide& a, const wide& b) { return a.value == b.value; }
    template<typename T> T make(size_t v) { if constexpr (std::is_same_v<T, wide>) return wide{ int(v), { 1, 2, 3, 4, 5 } }; else return T(v); }

    template<typename T>
    void vector_history(const char* name, Rng& rng, size_t n, uint64_t& trace)
    {
        for (size_t& u : g_used) u = 0;
        using V = trivial_vector<T, typed_slab<T>>;
        const size_t room = n + 64;
        auto v = std::make_unique<V>();
        meter_linear(GROWN, name, room, 30, [&] { v->reserve(room); });
        for (size_t i = 0; i < n; i++)
        {
            const T x = make<T>(i);
            if (i % 2) meter(PUSH, [&] { v->push_back(x); });
            else meter(EMPLACE, [&] { v->emplace_back(x); });
        }
        for (size_t i = 0; i < 40; i++)
        {
            const size_t at = rng.below(v->size());
            meter(INDEX, [&] { (*v)[at] = v->at(at); });
            meter(ENDS, [&] { volatile size_t s = v->size() + size_t(v->end() - v->begin()) + v->capacity() + v->empty(); (void)s; });
            meter(RESERVE, [&] { v->reserve(at); });
            meter(POP, [&] { v->pop_back(); });
            meter(LAST_ERASED, [&] { v->erase(v->end() - 1); });
            const T x = make<T>(i);
            meter(END_EMPLACED, [&] { v->emplace(v->end(), x); });
            v->push_back(x);
            const size_t d = rng.below(std::min<size_t>(16, v->size()) - 1) + 1;
            meter(NEAR_ERASED, [&] { v->erase(v->end() - d); });
            meter(NEAR_EMPLACED, [&] { v->emplace(v->end() - (d - 1), x); });
        }
        std::unique_ptr<V> w;
        meter(MOVED, [&] { w.reset(new V(std::move(*v))); });
        meter(MOVE_ASSIGNED, [&] { *v = std::move(*w); });
        meter(SWAPPED, [&] { std::swap(*v, *w); });
        meter(SWAPPED, [&] { std::swap(*v, *w); });
        VF_CHECK(v->size() == n || w->size() == n, "size", "%s: %zu elements were kept instead of %zu", name, v->size() + w->size(), n);
        if (w->size()) std::swap(v, w);
        w.reset();
        meter_linear(COPIED, name, n, 30, [&] { w.reset(new V(*v)); });
        meter_linear(COPIED, name, n, 30, [&] { *w = *v; });
        meter_linear(GROWN, name, 2 * n, 30, [&] { w->reserve(2 * n + 5); });
        meter_linear(CLEARED, name, n, 30, [&] { w->clear(); });
        meter_linear(DROPPED, name, n, 30, [&] { w.reset(); });
        meter_linear(DROPPED, name, n, 30, [&] { v.reset(); });
        trace = mix(trace ^ n ^ rng.next());
        stat("elements", n);
    }

    template<typename T>
    void array_history(const char* name, Rng& rng, size_t n, uint64_t& trace)
    {
        for (size_t& u : g_used) u = 0;
        using A = trivial_array<T, typed_slab<T>>;
        auto v = std::make_unique<A>(n);
        for (size_t i = 0; i < n; i++) (*v)[i] = make<T>(i);
        for (size_t i = 0; i < 40; i++)
        {
            const size_t at = rng.below(v->size());
            meter(INDEX, [&] { (*v)[at] = v->at(at); });
            meter(ENDS, [&] { volatile size_t s = v->size() + size_t(v->end() - v->begin()) + v->empty(); (void)s; });
        }
        std::unique_ptr<A> w;
        meter(MOVED, [&] { w.reset(new A(std::move(*v))); });
        meter(MOVE_ASSIGNED, [&] { *v = std::move(*w); });
        meter(SWAPPED, [&] { std::swap(*v, *w); });
        meter(SWAPPED, [&] { std::swap(*v, *w); });
        if (w->size()) std::swap(v, w);
        VF_CHECK(v->size() == n, "size", "%s: %zu elements were kept instead of %zu", name, v->size(), n);
        w.reset();
        meter_linear(COPIED, name, n, 30, [&] { w.reset(new A(*v)); });
        meter_linear(GROWN, name, n + 10, 30, [&] { w->resize(n + 10); });
        meter_linear(GROWN, name, n + 10, 30, [&] { w->resize(n / 2); });
        meter_linear(COPIED, name, n, 30, [&] { w->assign(v->begin(), v->end()); });
        meter(RESERVE, [&] { w->resize(n); });
        meter_linear(DROPPED, name, n, 30, [&] { w.reset(); });
        meter_linear(DROPPED, name, n, 30, [&] { v.reset(); });
        trace = mix(trace ^ n ^ rng.next());
        stat("elements", n);
    }

    template<typename T>
    void heap_history(const char* name, Rng& rng, size_t n, uint64_t& trace)
    {
        for (size_t& u : g_used) u = 0;
        using H = binary_heap<T, std::less<T>, typed_slab<T>>;
        const size_t room = n + 64;
        auto h = std::make_unique<H>();
        meter_linear(GROWN, name, room, 30, [&] { h->reserve(room); });
        const unsigned order = unsigned(rng.below(4));
        for (size_t i = 0; i < n; i++)
        {
            const T x = make<T>(order == 0 ? i : order == 1 ? n - i : order == 2 ? rng.below(n) : 7);
            meter(INSERT, [&] { h->insert(x); });
        }
        for (size_t i = 0; i < 40; i++)
        {
            meter(PEEK, [&] { (void)h->peek(); });
            meter(ENDS, [&] { volatile size_t s = h->size() + size_t(h->end() - h->begin()) + h->capacity() + h->empty(); (void)s; });
            meter(RESERVE, [&] { h->reserve(i); });
            meter(REMOVE, [&] { h->pop(); });
            const T x = make<T>(rng.below(n));
            meter(INSERT, [&] { h->insert(x); });
            if (i % 10 == 0) meter_linear(FOUND, name, n, 30, [&] { (void)h->find(x); });
        }
        std::unique_ptr<H> w;
        meter(MOVED, [&] { w.reset(new H(std::move(*h))); });
        meter(MOVE_ASSIGNED, [&] { *h = std::move(*w); });
        meter(SWAPPED, [&] { std::swap(*h, *w); });
        meter(SWAPPED, [&] { std::swap(*h, *w); });
        if (w->size()) std::swap(h, w);
        VF_CHECK(h->size() == n, "size", "%s: %zu elements were kept instead of %zu", name, h->size(), n);
        w.reset();
        meter_linear(COPIED, name, n, 30, [&] { w.reset(new H(*h)); });
        meter_linear(COPIED, name, n, 60, [&] { *w = *h; });
        meter_linear(GROWN, name, 2 * n, 60, [&] { w->reserve(2 * n + 5); });
        int last = 0;
        bool first = true;
        for (size_t i = n; i > n / 2; i--)
        {
            int k = 0;
            meter(REMOVE, [&] { k = key(h->pop()); });
            VF_CHECK(first || k >= last, "order", "%s: the order is broken", name);
            last = k;
            first = false;
        }
        meter_linear(CLEARED, name, n, 30, [&] { w->clear(); });
        meter_linear(DROPPED, name, n, 30, [&] { w.reset(); });
        meter_linear(DROPPED, name, n, 30, [&] { h.reset(); });
        trace = mix(trace ^ n ^ rng.next() ^ order);
        stat("elements", n);
    }

    template<typename F>
    void container(const char* name, Rng& rng, F&& history)
    {
        uint64_t trace = hash_str(name);
        Meter few, many;
        g_meter = &few;
        for (int i = 0; i < 40; i++) history(name, rng, 32, trace);
        g_meter = &many;
        const size_t n = rng.range(2000, 9000);
        history(name, rng, n, trace);
        judge(name, few, many, n);
        sig(trace);
        stat((std::string("cases:") + name).c_str());
    }
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (kinds().empty()) build();
    const size_t which = idx % (kinds().size() + 6);
    if (which < kinds().size())
    {
        vf::detail("%s", kinds()[which].name.c_str());
        allocators(kinds()[which], rng);
        return;
    }
    switch (which - kinds().size())
    {
    case 0: container("trivial_vector<int>", rng, [](auto&&... x) { vector_history<int>(x...); }); break;
    case 1: container("trivial_vector<wide>", rng, [](auto&&... x) { vector_history<wide>(x...); }); break;
    case 2: container("trivial_array<int>", rng, [](auto&&... x) { array_history<int>(x...); }); break;
    case 3: container("trivial_array<wide>", rng, [](auto&&... x) { array_history<wide>(x...); }); break;
    case 4: container("binary_heap<int>", rng, [](auto&&... x) { heap_history<int>(x...); }); break;
    default: container("binary_heap<wide>", rng, [](auto&&... x) { heap_history<wide>(x...); }); break;
    }
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c38", run_case); }
