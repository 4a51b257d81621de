// Recording leaf allocators: they satisfy the library's raw allocator interface and keep an exact ledger per instance.
// A leaf hands out exactly-sized blocks of the heap, so the sanitizer's red zones watch every block's bounds.
#pragma once
#include "vf.h"

#include <memory>
#include <new>
#include <type_traits>
#include <utility>

namespace leafs
{
    enum : unsigned
    {
        OWNS = 1,     // has owns()
        MAXSZ = 2,    // has max_size()
        CTOR = 4,     // has construct()/destroy()
        SHARED = 8,   // all instances of a tag are one allocator (stateless, copyable)
    };

    enum class Op : uint8_t { Alloc, Free, Construct, Destroy, Create, Drop };

    struct Event
    {
        Op op;
        int tag;
        int inst;
        const void* p;
        size_t n;
        bool operator==(const Event& o) const { return op == o.op && tag == o.tag && inst == o.inst && p == o.p && n == o.n; }
    };

    struct State
    {
        int tag;
        int inst;
        std::map<uintptr_t, size_t> live;
        size_t bytes = 0;
        uint64_t allocs = 0, frees = 0, constructs = 0, destroys = 0;
    };

    struct Config
    {
        size_t cap = SIZE_MAX;      // bytes an instance may hold at any time
        size_t maxSingle = SIZE_MAX; // the largest request it serves
        size_t maxReport = SIZE_MAX; // what max_size() says
        uint32_t failNum = 0;        // random refusals, out of 2^16
    };

    constexpr int TAGS = 24;

    struct World
    {
        Config cfg[TAGS];
        std::vector<Event> log;
        bool logging = false;
        int nextInst = 0;
        uint64_t liveBlocks = 0, liveBytes = 0, totalAllocs = 0, totalFrees = 0, instances = 0, refused = 0;
        uint64_t droppedLive = 0;    // blocks that were outstanding when their instance was destroyed
        uint64_t failSeed = 1;
        std::map<uintptr_t, std::pair<size_t, State*>> all; // every live block of every instance
        State* shared[TAGS] = {};
        std::string error; // first ledger violation: the caller decides what it means
        std::string errorKey;

        void reset()
        {
            for (auto& s : shared)
            {
                if (s)
                {
                    for (auto& kv : s->live) ::operator delete(reinterpret_cast<void*>(kv.first));
                    delete s;
                }
                s = nullptr;
            }
            log.clear();
            logging = false;
            nextInst = 0;
            liveBlocks = liveBytes = totalAllocs = totalFrees = instances = refused = droppedLive = 0;
            all.clear();
            error.clear();
            errorKey.clear();
            for (auto& c : cfg) c = Config();
        }

        uint64_t sharedStates() const
        {
            uint64_t n = 0;
            for (auto& s : shared) n += s != nullptr;
            return n;
        }

        void report(const char* key, std::string msg)
        {
            if (error.empty())
            {
                error = std::move(msg);
                errorKey = key;
            }
        }
    };

    inline World& world()
    {
        static World* w = new World;
        return *w;
    }

    // Is this address inside a block that some leaf has outstanding?
    inline bool containing(const void* p)
    {
        World& w = world();
        auto it = w.all.upper_bound(reinterpret_cast<uintptr_t>(p));
        if (it == w.all.begin()) return false;
        --it;
        return reinterpret_cast<uintptr_t>(p) < it->first + (it->second.first ? it->second.first : 1);
    }

    inline State* newState(int tag)
    {
        World& w = world();
        State* s = new State;
        s->tag = tag;
        s->inst = w.nextInst++;
        w.instances++;
        if (w.logging) w.log.push_back({ Op::Create, tag, s->inst, nullptr, 0 });
        return s;
    }

    inline void dropState(State* s)
    {
        World& w = world();
        w.droppedLive += s->live.size();
        w.instances--;
        for (auto& kv : s->live)
        {
            w.all.erase(kv.first);
            w.liveBlocks--;
            w.liveBytes -= kv.second;
            ::operator delete(reinterpret_cast<void*>(kv.first));
        }
        if (w.logging) w.log.push_back({ Op::Drop, s->tag, s->inst, nullptr, s->live.size() });
        delete s;
    }

    // Who shares a state with whom when a leaf is copied or moved
    template<int Tag, bool Shared>
    struct holder;

    template<int Tag>
    struct holder<Tag, true>
    {
        State* st;
        holder() noexcept
        {
            if (!world().shared[Tag]) world().shared[Tag] = newState(Tag);
            st = world().shared[Tag];
        }
        holder(const holder&) noexcept = default;
        holder& operator=(const holder&) noexcept = default;
    };

    template<int Tag>
    struct holder<Tag, false>
    {
        State* st;
        holder() noexcept : st(newState(Tag)) {}
        holder(const holder&) = delete;
        holder(holder&& o) noexcept : st(o.st) { o.st = newState(Tag); }
        holder& operator=(const holder&) = delete;
        holder& operator=(holder&& o) noexcept
        {
            if (this != &o)
            {
                dropState(st);
                st = o.st;
                o.st = newState(Tag);
            }
            return *this;
        }
        ~holder() { dropState(st); }
    };

    template<int Tag, unsigned Flags>
    class leaf
    {
    public:
        leaf() noexcept {}
        // Arguments, so that constructor forwarding can be observed
        explicit leaf(int mark) noexcept : m_Mark(mark) {}
        explicit leaf(int a, int b) noexcept : m_Mark(a * 1000 + b) {}

        bool operator==(const leaf& o) const noexcept { return m_H.st == o.m_H.st; }
        bool operator!=(const leaf& o) const noexcept { return m_H.st != o.m_H.st; }

        void* allocate(size_t n) noexcept
        {
            World& w = world();
            const Config& c = w.cfg[Tag];
            void* p = nullptr;
            bool refuse = n > c.maxSingle || n > c.cap || m_H.st->bytes > c.cap - n;
            if (!refuse && c.failNum)
            {
                w.failSeed = vf::mix(w.failSeed);
                refuse = (w.failSeed & 0xFFFF) < c.failNum;
            }
            if (!refuse && n > (size_t(1) << 31)) refuse = true;
            if (!refuse) p = ::operator new(n ? n : 1, std::nothrow);
            if (p)
            {
                m_H.st->live[reinterpret_cast<uintptr_t>(p)] = n;
                m_H.st->bytes += n;
                m_H.st->allocs++;
                w.all[reinterpret_cast<uintptr_t>(p)] = { n, m_H.st };
                w.liveBlocks++;
                w.liveBytes += n;
                w.totalAllocs++;
            }
            else
                w.refused++;
            if (w.logging) w.log.push_back({ Op::Alloc, Tag, m_H.st->inst, p, n });
            return p;
        }

        void deallocate(void* p, size_t n) noexcept
        {
            World& w = world();
            if (w.logging) w.log.push_back({ Op::Free, Tag, m_H.st->inst, p, n });
            auto it = m_H.st->live.find(reinterpret_cast<uintptr_t>(p));
            if (it == m_H.st->live.end())
            {
                auto a = w.all.find(reinterpret_cast<uintptr_t>(p));
                if (a != w.all.end())
                    w.report("returned-to-wrong-source", vf::fmt("a block of %zu bytes of leaf %d#%d was given to leaf %d#%d", a->second.first, a->second.second->tag, a->second.second->inst, Tag, m_H.st->inst));
                else
                    w.report("returned-unknown-block", vf::fmt("leaf %d#%d was given %p (%zu bytes), which it does not have outstanding (returned twice, or not its own)", Tag, m_H.st->inst, p, n));
                return;
            }
            if (it->second != n)
                w.report("returned-with-wrong-size", vf::fmt("leaf %d#%d gave out %zu bytes and got the block back as %zu bytes", Tag, m_H.st->inst, it->second, n));
            m_H.st->bytes -= it->second;
            m_H.st->frees++;
            w.liveBytes -= it->second;
            w.liveBlocks--;
            w.totalFrees++;
            w.all.erase(it->first);
            m_H.st->live.erase(it);
            ::operator delete(p);
        }

        template<unsigned F = Flags>
        std::enable_if_t<(F & OWNS) != 0, bool> owns(void* p) const noexcept
        {
            const uintptr_t a = reinterpret_cast<uintptr_t>(p);
            auto it = m_H.st->live.upper_bound(a);
            if (it == m_H.st->live.begin()) return false;
            --it;
            return a < it->first + (it->second ? it->second : 1);
        }

        template<unsigned F = Flags>
        std::enable_if_t<(F & MAXSZ) != 0, size_t> max_size() const noexcept { return world().cfg[Tag].maxReport; }

        template<typename T, typename... Args, unsigned F = Flags>
        std::enable_if_t<(F & CTOR) != 0, void> construct(T* p, Args&&... args)
        {
            World& w = world();
            m_H.st->constructs++;
            if (w.logging) w.log.push_back({ Op::Construct, Tag, m_H.st->inst, p, sizeof...(Args) });
            ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...);
        }

        template<typename T, unsigned F = Flags>
        std::enable_if_t<(F & CTOR) != 0, void> destroy(T* p)
        {
            World& w = world();
            m_H.st->destroys++;
            if (w.logging) w.log.push_back({ Op::Destroy, Tag, m_H.st->inst, p, 0 });
            p->~T();
        }

        State* state() const noexcept { return m_H.st; }
        int mark() const noexcept { return m_Mark; }

    private:
        holder<Tag, (Flags & SHARED) != 0> m_H;
        int m_Mark = 0;
    };
}
