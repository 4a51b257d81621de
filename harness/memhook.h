// Observation (and fault injection) at the C heap: programs are linked with
//   -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=aligned_alloc
// so every direct use of the C heap by the headers under test goes through here. The harness itself uses operator new.
#pragma once
#include <cstddef>
#include <cstdint>

namespace memhook
{
    struct Counters
    {
        uint64_t mallocs;      // successful requests
        uint64_t frees;        // of non-null
        uint64_t denied;       // requests we failed on purpose
        uint64_t live_blocks;
        uint64_t live_bytes;
        uint64_t peak_bytes;
        uint64_t last_size;    // size of the last request
        uint64_t bad_frees;    // frees of pointers which are not live (the process then stops inside free())
    };

    Counters get();
    // Deny the k-th request from now (0 = the next one); -1 = never
    void deny_at(int64_t k);
    // Deny every request with probability num/2^16, drawn from a private deterministic stream
    void deny_random(uint32_t num, uint64_t seed);
    void deny_all(bool on);
    // Requests beyond this never succeed (so that no test actually reserves gigabytes)
    void set_limit(uint64_t bytes);
    bool live(const void* p, size_t* size = nullptr); // p is the start of a live block
    // the live block that contains p
    bool containing(const void* p, uintptr_t* start, size_t* size);
    uint64_t largest_offset(); // unused spare
}
