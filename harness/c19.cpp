#include "c19.h"

std::vector<c19::Run>& c19::runs()
{
    static std::vector<Run> r;
    return r;
}

void c19_a(); void c19_b(); void c19_c(); void c19_d(); void c19_e(); void c19_f(); void c19_g(); void c19_h();

static void run_case(uint64_t idx, vf::Rng& rng)
{
    auto& all = c19::runs();
    if (all.empty()) { c19_a(); c19_b(); c19_c(); c19_d(); c19_e(); c19_f(); c19_g(); c19_h(); }
    auto& r = all[idx % all.size()];
    const std::string what = std::string("std::") + r.container + " on " + r.family;
    uint64_t trace = vf::hash_str(what.c_str());
    r.run(rng, what.c_str(), trace);
    vf::sig(trace);
    vf::digest(trace);
    if (idx < all.size()) vf::sample(what);
    vf::stat(("cases:" + what).c_str());
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c19", run_case); }
