#include "c19.h"
using namespace ktl;
using leafs::leaf;
using F = c19::Counted<atomic_shared<threaded<segragator<64, freelist<0, 64, cascading<leaf<2, leafs::OWNS | leafs::MAXSZ>>>, fallback<linear_allocator<2048>, leaf<3, leafs::MAXSZ>>>>>>;
void c19_d() { c19::add_assoc<F>("type_atomic_shared<threaded<segragator<freelist<cascading>,fallback<linear>>>>"); }
