// C27: packed pointers keep pointer and integer independent and exact.
#include "vf.h"
#include <ktl/ktl.h>
#include <memory>

using namespace vf;

namespace
{
    struct Packed
    {
        virtual ~Packed() = default;
        virtual void make(uintptr_t p, uint64_t v, unsigned how) = 0;
        virtual void set_ptr(uintptr_t p) = 0;
        virtual void set_int(uint64_t v, unsigned how) = 0;
        virtual uintptr_t ptr() = 0;
        virtual uint64_t get(unsigned how) = 0;
        virtual bool truth() = 0;
        virtual std::unique_ptr<Packed> copy(bool assign) = 0;
        virtual void reset() = 0;
    };

    struct Kind
    {
        const char* name;
        size_t bits, align;
        std::unique_ptr<Packed> (*open)();
    };

    constexpr unsigned WAYS = 8;
    uint64_t reduced(uint64_t v, unsigned how) // what an integer of that type holds
    {
        switch (how % WAYS)
        {
        case 0: return uint8_t(v);
        case 1: return uint16_t(v);
        case 2: return uint32_t(v);
        case 3: return uint64_t(v);
        case 4: return size_t(v);
        case 5: return (unsigned char)(v);
        case 6: return (unsigned long long)(v);
        default: return v & 1;
        }
    }

    template<typename P, size_t Bits, size_t Align>
    struct Impl final : Packed
    {
        using T = ktl::packed_ptr<P, Bits, Align>;
        T t;
        void make(uintptr_t p, uint64_t v, unsigned how) override
        {
            P q = reinterpret_cast<P>(p);
            switch (how % WAYS)
            {
            case 0: t = T(q, uint8_t(v)); break;
            case 1: t = T(q, uint16_t(v)); break;
            case 2: t = T(q, uint32_t(v)); break;
            case 3: t = T(q, uint64_t(v)); break;
            case 4: t = T(q, size_t(v)); break;
            case 5: t = T(q, (unsigned char)(v)); break;
            case 6: t = T(q, (unsigned long long)(v)); break;
            default: t = T(q, bool(v & 1)); break;
            }
        }
        void set_ptr(uintptr_t p) override { t.set_ptr(reinterpret_cast<P>(p)); }
        void set_int(uint64_t v, unsigned how) override
        {
            switch (how % WAYS)
            {
            case 0: t.set_int(uint8_t(v)); break;
            case 1: t.set_int(uint16_t(v)); break;
            case 2: t.set_int(uint32_t(v)); break;
            case 3: t.set_int(uint64_t(v)); break;
            case 4: t.set_int(size_t(v)); break;
            case 5: t.set_int((unsigned char)(v)); break;
            case 6: t.set_int((unsigned long long)(v)); break;
            default: t.set_int(bool(v & 1)); break;
            }
        }
        uintptr_t ptr() override { return reinterpret_cast<uintptr_t>(static_cast<const T&>(t).get_ptr()); }
        uint64_t get(unsigned how) override
        {
            const T& k = t;
            switch (how % 5)
            {
            case 0: return k.template get_int<uint8_t>();
            case 1: return k.template get_int<uint16_t>();
            case 2: return k.template get_int<uint32_t>();
            case 3: return k.template get_int<uint64_t>();
            default: return k.template get_int<unsigned long long>();
            }
        }
        bool truth() override { return static_cast<bool>(static_cast<const T&>(t)); }
        std::unique_ptr<Packed> copy(bool assign) override
        {
            auto r = std::make_unique<Impl>();
            if (assign) r->t = t;
            else { T u(t); r->t = std::move(u); }
            return r;
        }
        void reset() override { t = T(); }
    };

    template<typename P, size_t Bits, size_t Align>
    std::unique_ptr<Packed> open() { return std::make_unique<Impl<P, Bits, Align>>(); }

    struct alignas(1024) Page { char b[1024]; };
    struct Node;

#define K(P, Bits, Align) Kind{ "packed_ptr<" #P ", " #Bits ", " #Align ">", Bits, Align, &open<P, Bits, Align> }
    const std::vector<Kind>& kinds()
    {
        static std::vector<Kind> k = {
            K(void*, 0, 1), K(char*, 0, 2), K(char*, 1, 2), K(void*, 1, 4), K(int*, 2, 4), K(int*, 0, 4), K(int*, 1, 4), K(double*, 3, 8), K(double*, 2, 8), K(double*, 1, 8), K(const void*, 3, 8),
            K(void*, 4, 16), K(void*, 3, 16), K(void*, 1, 16), K(const int*, 4, 16), K(Node*, 5, 32), K(Node*, 2, 32), K(void*, 6, 64), K(void*, 5, 64), K(void*, 7, 128), K(void*, 8, 256), K(void*, 7, 256),
            K(Page*, 9, 512), K(Page*, 10, 1024), K(Page*, 4, 1024), K(void*, 12, 4096), K(void*, 9, 4096), K(volatile char*, 16, 65536), K(void*, 17, 131072), K(void*, 20, 1048576), K(void*, 31, 2147483648),
            K(void*, 32, 4294967296), K(void*, 33, 8589934592), K(void*, 40, 1099511627776), K(void*, 1, 1099511627776) };
        return k;
    }
}

static void run_case(uint64_t idx, Rng& rng)
{
    const Kind& k = kinds()[idx % kinds().size()];
    const uint64_t mask = k.bits >= 64 ? ~0ull : (1ull << k.bits) - 1;
    uint64_t trace = hash_str(k.name);
    struct Slot { std::unique_ptr<Packed> p; uintptr_t ptr; uint64_t val; };
    Slot s[3];
    auto pointer = [&]() -> uintptr_t {
        uint64_t r = 0;
        switch (rng.below(6))
        {
        case 0: return 0;
        case 1: r = ~0ull; break;
        case 2: r = 1ull << rng.below(64); break;
        case 3: r = rng.next() & 0x7FFFFFFFFFFFull; break;
        default: r = rng.next() ^ mix(rng.next()); break;
        }
        return uintptr_t(r & ~(uint64_t(k.align) - 1));
    };
    auto integer = [&]() -> uint64_t {
        switch (rng.below(6))
        {
        case 0: return 0;
        case 1: return ~0ull;
        case 2: return mask;
        case 3: return mask + 1;
        case 4: return 1ull << rng.below(64);
        default: return mix(rng.next());
        }
    };
    for (auto& x : s) { x.p = k.open(); x.ptr = 0; x.val = 0; }
    const size_t steps = rng.range(3, 60);
    for (size_t t = 0; t < steps; t++)
    {
        vf::detail("%s, step %zu", k.name, t);
        Slot& x = s[rng.below(3)];
        Slot& o = s[rng.below(3)];
        const unsigned op = unsigned(rng.below(8)), how = unsigned(rng.below(WAYS));
        const uint64_t v = integer();
        const uintptr_t p = pointer();
        switch (op)
        {
        case 0: case 1: x.p->make(p, v, how); x.ptr = p; x.val = reduced(v, how) & mask; stat("made"); break;
        case 2: case 3: x.p->set_ptr(p); x.ptr = p; stat("pointers_stored"); break;
        case 4: case 5: x.p->set_int(v, how); x.val = reduced(v, how) & mask; stat("integers_stored"); if (reduced(v, how) & ~mask) stat("integers_reduced"); break;
        case 6: if (&x != &o) { x.p = o.p->copy(rng.chance(1, 2)); x.ptr = o.ptr; x.val = o.val; stat("copies"); } break;
        default: if (rng.chance(1, 3)) { x.p->reset(); x.ptr = 0; x.val = 0; } break;
        }
        trace = mix(trace ^ op ^ (v << 4) ^ p);
        for (auto& y : s)
        {
            VF_CHECK(y.p->ptr() == y.ptr, "pointer", "%s: after operation %u the pointer is %#" PRIxPTR " and should be %#" PRIxPTR, k.name, op, y.p->ptr(), y.ptr);
            const unsigned g = unsigned(rng.below(5));
            const uint64_t got = y.p->get(g);
            const uint64_t want = g == 0 ? uint8_t(y.val) : g == 1 ? uint16_t(y.val) : g == 2 ? uint32_t(y.val) : y.val;
            VF_CHECK(got == want, "integer", "%s: after operation %u the integer is %#" PRIx64 " and should be %#" PRIx64, k.name, op, got, want);
            VF_CHECK(y.p->get(3) == y.val, "integer", "%s: after operation %u the integer is %#" PRIx64 " and should be %#" PRIx64, k.name, op, y.p->get(3), y.val);
            VF_CHECK(y.p->truth() == (y.ptr != 0 || y.val != 0), "truth", "%s: with pointer %#" PRIxPTR " and integer %#" PRIx64 " it converts to %d", k.name, y.ptr, y.val, int(y.p->truth()));
            stat("comparisons");
            if (!y.ptr && !y.val) stat("both_zero");
            if (!y.ptr && y.val) stat("only_integer");
        }
    }
    sig(trace);
    if (idx < kinds().size()) sample(k.name);
    stat((std::string("cases:") + k.name).c_str());
    digest(trace);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c27", run_case); }
