#include "c19.h"
using namespace ktl;
using leafs::leaf;
using F = c19::Counted<shared<fallback<cascading<linear_allocator<4096>>, fallback<cascading<linear_allocator<65536>>, leaf<4, 0>>>>>;
void c19_e() { c19::add<F>("type_shared<fallback<cascading<linear>,fallback<cascading<linear>,leaf>>>", 1); c19::add_assoc<F>("type_shared<fallback<cascading<linear>,fallback<cascading<linear>,leaf>>>"); }
