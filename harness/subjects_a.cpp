// Raw allocators and freelists
#include "subjects.h"
#include <ktl/ktl.h>

using namespace ktl;

namespace vf
{
    template<size_t N>
    struct StackEnv { stack<N> block; };

    void register_a()
    {
        reg_default<linear_allocator<16>>(spec("linear<16>", { 16 }, 24, 16));
        reg_default<linear_allocator<100>>(spec("linear<100>", { 100, 96 }, 60, 100));
        reg_default<linear_allocator<1024>>(spec("linear<1024>", { 1024, 512 }, 200, 1024));
        reg_default<linear_allocator<70000>>(spec("linear<70000>", { 70000, 65536, 32768, 69984 }, 3000, 70000));
        reg_default<linear_allocator<(1 << 20)>>(spec("linear<1M>", { 1 << 20, 1 << 19, 65536 }, 40000, 1 << 20));
        reg_raw<stack_allocator<16>, StackEnv<16>>(spec("stack<16>", { 16 }, 24, 16), [](StackEnv<16>& e) { return stack_allocator<16>(e.block); });
        reg_raw<stack_allocator<1000>, StackEnv<1000>>(spec("stack<1000>", { 1000, 992 }, 200, 1000), [](StackEnv<1000>& e) { return stack_allocator<1000>(e.block); });
        reg_raw<stack_allocator<70000>, StackEnv<70000>>(spec("stack<70000>", { 70000, 65536, 69984 }, 4000, 70000), [](StackEnv<70000>& e) { return stack_allocator<70000>(&e.block); });
        reg_default<mallocator>(big(only_heap(spec("mallocator", { 16, 64, 4096, 65536 }, 600, 0, false, true))));
        reg_default<null_allocator>(spec("null", { 16 }, 64, 0));

        reg_default<freelist<0, 8, mallocator>>(only_heap(spec("freelist<0,8,mallocator>", { 8 }, 12, 0, true, true)));
        reg_default<freelist<0, 64, mallocator>>(only_heap(spec("freelist<0,64,mallocator>", { 64 }, 80, 0, true, true)));
        reg_default<freelist<16, 128, linear_allocator<4096>>>(spec("freelist<16,128,linear<4096>>", { 16, 128 }, 140, 4096, true));
        reg_default<freelist<100, 100000, mallocator>>(only_heap(spec("freelist<100,100000,mallocator>", { 100, 100000 }, 100001, 0, true, true)));
        reg_default<freelist<0, 24, linear_allocator<100>>>(spec("freelist<0,24,linear<100>>", { 24 }, 26, 100, true));
        reg_default<freelist<0, 64, fallback<linear_allocator<256>, mallocator>>>(spec("freelist<0,64,fallback<linear<256>,mallocator>>", { 64 }, 70, 0, true, true));
        reg_raw<freelist<32, 64, stack_allocator<1024>>, StackEnv<1024>>(spec("freelist<32,64,stack<1024>>", { 32, 64 }, 70, 1024, true), [](StackEnv<1024>& e) { return freelist<32, 64, stack_allocator<1024>>(e.block); });
        reg_default<freelist<0, 32, cascading<linear_allocator<128>>>>(spec("freelist<0,32,cascading<linear<128>>>", { 32 }, 36, 0, true));
    }
}
