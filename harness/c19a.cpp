#include "c19.h"
using namespace ktl;
using leafs::leaf;
using F = c19::Counted<shared<leaf<0, leafs::OWNS | leafs::CTOR>>>;
using G = c19::Referenced<leaf<1, leafs::OWNS>>;
void c19_a() { c19::add<F>("type_shared<leaf>", 1); c19::add<G>("type_reference<leaf>", 1); }
