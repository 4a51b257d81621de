#include "c19.h"
using namespace ktl;
using leafs::leaf;
struct Stack
{
    using Raw = stack_allocator<(1 << 22)>;
    template<typename T> using A = type_allocator<T, Raw>;
    static stack<(1 << 22)>& block(int g) { static auto* s = new stack<(1 << 22)>[2]; return s[g]; }
    static Raw raw(int g) { return Raw(block(g)); }
    static void open() { leafs::world().reset(); }
    static void close(const char* what)
    {
        // Everything was returned, so all of it is there again
        for (int g = 0; g < 2; g++)
        {
            Raw r = raw(g);
            void* p = r.allocate(1 << 22);
            VF_CHECK(p, "memory-kept", "%s: the arena is not all available after the containers are gone", what);
            r.deallocate(p, 1 << 22);
        }
        c19::audit_leaves(what);
    }
};
void c19_f() { c19::add<Stack>("type_stack_allocator", 1); c19::add_assoc<Stack>("type_stack_allocator"); }
