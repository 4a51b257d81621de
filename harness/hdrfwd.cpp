// The forward declarations are enough to name everything, and agree with the definitions whichever comes first
#ifdef LATE
#include <ktl/ktl.h>
#endif
#include <ktl/ktl_alloc_fwd.h>
#include <ktl/ktl_container_fwd.h>
#include <type_traits>

namespace
{
    using namespace ktl;
    struct Client
    {
        type_linear_allocator<int, 64>* a;
        type_shared_linear_allocator<int, 64>* b;
        type_mallocator<int>* c;
        type_stack_allocator<int, 64>* d;
        type_freelist_allocator<int, 0, 64, mallocator>* e;
        type_shared_cascading_allocator<int, linear_allocator<64>>* f;
        type_fallback_allocator<int, linear_allocator<64>, mallocator>* g;
        type_segragator_allocator<int, 16, linear_allocator<64>, mallocator>* h;
        reference<mallocator>* i;
        global<mallocator>* j;
        threaded<mallocator>* k;
        null_allocator* l;
        type_shared_threaded<int, mallocator>* m;
        atomic_shared<mallocator>* n;
        fallback_builder_min<linear_allocator<64>, linear_allocator<128>, mallocator>* o;
        segragator_builder_max<mallocator, threshold<16>, linear_allocator<64>>* p;
        trivial_array<int, type_mallocator<int>>* q;
        trivial_vector<int, type_mallocator<int>>* r;
        binary_min_heap<int, type_mallocator<int>>* s;
        binary_max_heap<int, type_mallocator<int>>* t;
    };
    type_shared_linear_allocator<int, 64>* declared(trivial_vector<int, type_mallocator<int>>*);
    static_assert(std::is_same_v<type_shared_linear_allocator<int, 64>, type_allocator<int, shared<linear_allocator<64>>>>);
    static_assert(std::is_same_v<type_shared_threaded<int, mallocator>, type_allocator<int, atomic_shared<threaded<mallocator>>>>);
}

#include <ktl/ktl.h>

extern "C" void header_included(const char* name);
namespace
{
    struct Registered
    {
        Registered()
        {
            ktl::type_shared_linear_allocator<int, 64> a;
            ktl::trivial_vector<int, ktl::type_shared_linear_allocator<int, 64>> v(a);
            v.push_back(1);
            Client c{};
            c.b = &a;
#ifdef LATE
            header_included("definitions before forward declarations");
#else
            header_included("forward declarations before definitions");
#endif
        }
    } registered;
}
