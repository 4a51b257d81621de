#include "c19.h"
using namespace ktl;
using leafs::leaf;
using F = c19::Referenced<fallback<freelist<0, 48, leaf<5, leafs::OWNS>>, leaf<6, leafs::OWNS>>>;
struct G : c19::Stateless<global<leaf<7, leafs::OWNS | leafs::CTOR>>>
{
    static void open()
    {
        leafs::world().reset();
        Raw().set_allocator(leaf<7, leafs::OWNS | leafs::CTOR>());
    }
};
void c19_g() { c19::add<F>("type_reference<fallback<freelist,leaf>>", 1); c19::add_assoc<F>("type_reference<fallback<freelist,leaf>>"); c19::add<G>("type_global<leaf>", 1); }
