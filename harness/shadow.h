// Shadow of the blocks a client holds: who owns which bytes, and what the client last wrote there.
#pragma once
#include "vf.h"

namespace vf
{
    struct Block
    {
        char* p;
        size_t n;      // size as requested (and as it will be given back)
        uint64_t id;   // unique: the contents are a function of it
        unsigned tag = 0;
    };

    inline void fill(char* p, size_t n, uint64_t id)
    {
        const uint64_t k = mix(id);
        size_t i = 0;
        for (; i + 8 <= n; i += 8)
        {
            uint64_t w = k + i * 0x9E3779B97F4A7C15ull;
            std::memcpy(p + i, &w, 8);
        }
        for (; i < n; i++) p[i] = char((k >> ((i & 7) * 8)) ^ i);
    }

    // Returns SIZE_MAX when the contents are as written, otherwise the offset of the first difference
    inline size_t verify(const char* p, size_t n, uint64_t id)
    {
        const uint64_t k = mix(id);
        size_t i = 0;
        for (; i + 8 <= n; i += 8)
        {
            uint64_t w;
            std::memcpy(&w, p + i, 8);
            if (w != k + i * 0x9E3779B97F4A7C15ull) return i;
        }
        for (; i < n; i++)
            if (p[i] != char((k >> ((i & 7) * 8)) ^ i)) return i;
        return SIZE_MAX;
    }

    class Shadow
    {
    public:
        std::vector<Block> live;                  // in allocation order, except for swaps on removal
        std::map<uintptr_t, size_t> byAddr;       // start -> length, only blocks with n > 0
        uint64_t nextId = 1;
        uint64_t liveBytes = 0;
        uint64_t checks = 0;

        explicit Shadow(uint64_t salt = 0) : nextId(salt * 1000003 + 1) {}

        // Registers a block. Returns the overlapping block's start through *clash (and false) if it overlaps
        bool add(void* p, size_t n, uintptr_t* clash = nullptr)
        {
            const uintptr_t a = reinterpret_cast<uintptr_t>(p);
            if (n)
            {
                auto it = byAddr.upper_bound(a);
                if (it != byAddr.end() && it->first < a + n) { if (clash) *clash = it->first; return false; }
                if (it != byAddr.begin())
                {
                    --it;
                    if (it->first + it->second > a) { if (clash) *clash = it->first; return false; }
                }
                byAddr[a] = n;
            }
            live.push_back(Block{ static_cast<char*>(p), n, nextId++ });
            liveBytes += n;
            fill(live.back().p, n, live.back().id);
            return true;
        }

        Block take(size_t index)
        {
            Block b = live[index];
            live.erase(live.begin() + ptrdiff_t(index));
            if (b.n) byAddr.erase(reinterpret_cast<uintptr_t>(b.p));
            liveBytes -= b.n;
            return b;
        }

        Block takeFast(size_t index)
        {
            Block b = live[index];
            live[index] = live.back();
            live.pop_back();
            if (b.n) byAddr.erase(reinterpret_cast<uintptr_t>(b.p));
            liveBytes -= b.n;
            return b;
        }

        // the first damaged live block, or nullptr
        const Block* damaged(size_t* where)
        {
            for (const Block& b : live)
            {
                checks++;
                size_t w = verify(b.p, b.n, b.id);
                if (w != SIZE_MAX) { if (where) *where = w; return &b; }
            }
            return nullptr;
        }
    };
}
