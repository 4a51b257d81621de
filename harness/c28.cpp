// C28: every header was compiled on its own (see hdr.cpp), in both orders with its forward declarations (see hdrfwd.cpp)
#include "vf.h"
#include <string>
#include <vector>

static std::vector<std::string>& names() { static auto* v = new std::vector<std::string>; return *v; }
extern "C" void header_included(const char* name) { names().push_back(name); }

static void run_case(uint64_t idx, vf::Rng&)
{
    if (idx >= names().size()) return;
    const std::string& n = names()[idx];
    vf::detail("%s", n.c_str());
    vf::stat("headers_on_their_own");
    vf::sig(n);
    if (idx < 6) vf::sample(n);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c28", run_case); }
