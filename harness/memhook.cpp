#include "memhook.h"
#include "vf.h"

#include <cerrno>
#include <map>
#include <mutex>
#include <unordered_map>

extern "C"
{
    void* __real_malloc(size_t);
    void __real_free(void*);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    int __real_posix_memalign(void**, size_t, size_t);
    void* __real_aligned_alloc(size_t, size_t);
}

namespace memhook
{
    namespace
    {
        std::mutex& mtx() { static std::mutex* m = new std::mutex; return *m; }
        std::map<uintptr_t, size_t>& reg() { static auto* m = new std::map<uintptr_t, size_t>; return *m; }
        Counters c{};
        int64_t g_deny_at = -1;
        uint32_t g_deny_num = 0;
        uint64_t g_deny_seed = 0;
        bool g_deny_all = false;
        uint64_t g_limit = uint64_t(1) << 31;

        bool denied(size_t n)
        {
            c.last_size = n;
            if (n > g_limit) return true;
            bool d = g_deny_all;
            if (g_deny_at >= 0 && g_deny_at-- == 0) d = true;
            if (g_deny_num)
            {
                g_deny_seed = vf::mix(g_deny_seed);
                if ((g_deny_seed & 0xFFFF) < g_deny_num) d = true;
            }
            if (d) c.denied++;
            return d;
        }

        void* added(void* p, size_t n)
        {
            if (p)
            {
                reg()[reinterpret_cast<uintptr_t>(p)] = n;
                c.mallocs++;
                c.live_blocks++;
                c.live_bytes += n;
                if (c.live_bytes > c.peak_bytes) c.peak_bytes = c.live_bytes;
            }
            return p;
        }

        bool removed(void* p)
        {
            auto it = reg().find(reinterpret_cast<uintptr_t>(p));
            if (it == reg().end())
            {
                c.bad_frees++;
                return false;
            }
            c.frees++;
            c.live_blocks--;
            c.live_bytes -= it->second;
            reg().erase(it);
            return true;
        }
    }

    Counters get() { std::lock_guard<std::mutex> l(mtx()); return c; }
    void deny_at(int64_t k) { std::lock_guard<std::mutex> l(mtx()); g_deny_at = k; }
    void deny_random(uint32_t num, uint64_t seed) { std::lock_guard<std::mutex> l(mtx()); g_deny_num = num; g_deny_seed = seed; }
    void deny_all(bool on) { std::lock_guard<std::mutex> l(mtx()); g_deny_all = on; }
    void set_limit(uint64_t bytes) { std::lock_guard<std::mutex> l(mtx()); g_limit = bytes; }
    bool live(const void* p, size_t* size)
    {
        std::lock_guard<std::mutex> l(mtx());
        auto it = reg().find(reinterpret_cast<uintptr_t>(p));
        if (it == reg().end()) return false;
        if (size) *size = it->second;
        return true;
    }
    bool containing(const void* p, uintptr_t* start, size_t* size)
    {
        std::lock_guard<std::mutex> l(mtx());
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        auto it = reg().upper_bound(a);
        if (it == reg().begin()) return false;
        --it;
        if (a >= it->first + (it->second ? it->second : 1)) return false;
        if (start) *start = it->first;
        if (size) *size = it->second;
        return true;
    }
    uint64_t largest_offset() { return 0; }
}

using namespace memhook;

extern "C"
{
    void* __wrap_malloc(size_t n)
    {
        std::lock_guard<std::mutex> l(mtx());
        if (denied(n)) { errno = ENOMEM; return nullptr; }
        return added(__real_malloc(n), n);
    }

    void __wrap_free(void* p)
    {
        bool ok = true;
        if (p)
        {
            std::lock_guard<std::mutex> l(mtx());
            ok = removed(p);
        }
        if (!ok)
        {
            // The library gave the C heap a pointer which it never got from it, or already gave back
            vf::fail("bad-free", "free() of a pointer which is not a live block of the C heap");
        }
        __real_free(p);
    }

    void* __wrap_calloc(size_t a, size_t b)
    {
        std::lock_guard<std::mutex> l(mtx());
        if (b && a > SIZE_MAX / b) return nullptr;
        if (denied(a * b)) { errno = ENOMEM; return nullptr; }
        return added(__real_calloc(a, b), a * b);
    }

    void* __wrap_realloc(void* p, size_t n)
    {
        std::lock_guard<std::mutex> l(mtx());
        if (denied(n)) { errno = ENOMEM; return nullptr; }
        if (p) removed(p);
        return added(__real_realloc(p, n), n);
    }

    int __wrap_posix_memalign(void** out, size_t al, size_t n)
    {
        std::lock_guard<std::mutex> l(mtx());
        if (denied(n)) return ENOMEM;
        void* p = nullptr;
        int r = __real_posix_memalign(&p, al, n);
        if (r == 0) { added(p, n); *out = p; }
        return r;
    }

    void* __wrap_aligned_alloc(size_t al, size_t n)
    {
        std::lock_guard<std::mutex> l(mtx());
        if (denied(n)) { errno = ENOMEM; return nullptr; }
        return added(__real_aligned_alloc(al, n), n);
    }
}
