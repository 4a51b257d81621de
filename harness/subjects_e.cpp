// Overflow, shared, threaded, reference, global
#include "subjects.h"
#include <ktl/ktl.h>

#include <sstream>

using namespace ktl;

namespace vf
{
    namespace
    {
        struct SinkEnv { Sink sink; stack<4096> block; };
        struct OsEnv { std::ostringstream os; };
        template<typename A>
        struct Target { A a; };
    }

    void register_e()
    {
        reg_raw<overflow<mallocator, Sink>, SinkEnv>(spec("overflow<mallocator>", { 64, 128, 4096 }, 300, 0, false, true), [](SinkEnv& e) { return overflow<mallocator, Sink>(e.sink); });
        reg_raw<overflow<linear_allocator<4096>>, OsEnv>(spec("overflow<linear<4096>>", { 4096, 3968, 1024 }, 300, 4096), [](OsEnv& e) { return overflow<linear_allocator<4096>>(e.os); });
        reg_raw<overflow<stack_allocator<4096>, Sink>, SinkEnv>(spec("overflow<stack<4096>>", { 4096, 3968 }, 300, 4096), [](SinkEnv& e) { return overflow<stack_allocator<4096>, Sink>(e.sink, e.block); });
        reg_raw<overflow<fallback<linear_allocator<1024>, mallocator>, Sink>, SinkEnv>(spec("overflow<fallback<linear<1024>,mallocator>>", { 896, 1024 }, 300, 0, false, true),
            [](SinkEnv& e) { return overflow<fallback<linear_allocator<1024>, mallocator>, Sink>(e.sink); });
        reg_raw<overflow<freelist<128, 256, mallocator>, Sink>, SinkEnv>(spec("overflow<freelist<128,256,mallocator>>", { 1, 128 }, 130, 0, true, true),
            [](SinkEnv& e) { return overflow<freelist<128, 256, mallocator>, Sink>(e.sink); });
        reg_raw<freelist<0, 128, overflow<mallocator, Sink>>, SinkEnv>(spec("freelist<0,128,overflow<mallocator>>", { 128 }, 130, 0, true, true),
            [](SinkEnv& e) { return freelist<0, 128, overflow<mallocator, Sink>>(e.sink); });
        reg_raw<overflow<cascading<linear_allocator<512>>, Sink>, SinkEnv>(spec("overflow<cascading<linear<512>>>", { 384, 512 }, 200, 0),
            [](SinkEnv& e) { return overflow<cascading<linear_allocator<512>>, Sink>(e.sink); });

        reg_default<shared<linear_allocator<1024>>>(spec("shared<linear<1024>>", { 1024 }, 200, 1024));
        reg_default<shared<freelist<0, 64, mallocator>>>(spec("shared<freelist<0,64,mallocator>>", { 64 }, 70, 0, true, true));
        reg_default<atomic_shared<threaded<cascading<linear_allocator<512>>>>>(spec("atomic_shared<threaded<cascading<linear<512>>>>", { 512 }, 150, 0));
        reg_raw<shared<stack_allocator<4096>>, SinkEnv>(spec("shared<stack<4096>>", { 4096 }, 400, 4096), [](SinkEnv& e) { return shared<stack_allocator<4096>>(e.block); });
        reg_default<threaded<linear_allocator<1024>>>(spec("threaded<linear<1024>>", { 1024 }, 200, 1024));
        reg_default<threaded<fallback<linear_allocator<256>, mallocator>>>(spec("threaded<fallback<linear<256>,mallocator>>", { 256 }, 100, 0, false, true));

        using C1 = cascading<linear_allocator<512>>;
        reg_raw<reference<C1>, Target<C1>>(spec("reference<cascading<linear<512>>>", { 512 }, 150, 0), [](Target<C1>& e) { return reference<C1>(e.a); });
        using F1 = freelist<0, 48, linear_allocator<1024>>;
        reg_raw<reference<F1>, Target<F1>>(spec("reference<freelist<0,48,linear<1024>>>", { 48 }, 50, 1024, true), [](Target<F1>& e) { return reference<F1>(e.a); });

        reg_default<global<linear_allocator<2048>>>(spec("global<linear<2048>>", { 2048 }, 300, 2048));
        reg_default<global<cascading<linear_allocator<320>>>>(spec("global<cascading<linear<320>>>", { 320 }, 100, 0));
    }
}
