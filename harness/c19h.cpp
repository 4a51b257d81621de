#include "c19.h"
using namespace ktl;
using leafs::leaf;
struct Sink
{
    std::string text;
    template<typename T> Sink& operator<<(const T& v) { std::ostringstream s; s << v; text += s.str(); return *this; }
};
struct Over
{
    using Raw = shared<overflow<leaf<8, leafs::OWNS>, std::ostream>>;
    template<typename T> using A = type_allocator<T, Raw>;
    static Raw*& slot(int g) { static Raw* s[2]; return s[g]; }
    static std::ostringstream& out() { static std::ostringstream* o = new std::ostringstream; return *o; }
    static const Raw& raw(int g) { return *slot(g); }
    static void open()
    {
        leafs::world().reset();
        out().str("");
        for (int g = 0; g < 2; g++) slot(g) = new Raw(out());
    }
    static void close(const char* what)
    {
        for (int g = 0; g < 2; g++) { delete slot(g); slot(g) = nullptr; }
        c19::audit_leaves(what);
        VF_CHECK(out().str().empty(), "leak-reported", "%s: the leak and corruption detector reported: %s", what, out().str().c_str());
    }
};
using M = c19::Stateless<mallocator>;
void c19_h() { c19::add<Over>("type_shared_overflow", 1); c19::add_assoc<Over>("type_shared_overflow"); c19::add<M>("type_mallocator", 1); }
