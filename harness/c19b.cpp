#include "c19.h"
using namespace ktl;
using leafs::leaf;
using F = c19::Counted<shared<leaf<0, leafs::OWNS | leafs::CTOR>>>;
void c19_b() { c19::add_assoc<F>("type_shared<leaf>"); }
