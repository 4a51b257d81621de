// Twins: the same composition over two disjoint sets of recording sources. What happens to the one happens to the other in the plainest way,
// and both must then ask their sources for the same things.
#pragma once
#include "leaf.h"
#include "vf.h"

#include <algorithm>
#include <map>
#include <string>
#include <tuple>

namespace vf
{
    constexpr int TWIN = 12; // distance between the tags of the two sets
    using leafs::Event;
    using leafs::Op;

    struct Seen
    {
        std::vector<Event> m, s;
    };

    struct Twins
    {
        const std::string& name;
        leafs::World& w = leafs::world();
        std::map<int, int> inst; // instance of the one -> instance of its twin

        explicit Twins(const std::string& n) : name(n) {}

        std::vector<Event> slice()
        {
            std::vector<Event> r;
            for (const Event& e : w.log)
                if (e.op == Op::Alloc || e.op == Op::Free) r.push_back(e);
            w.log.clear();
            return r;
        }

        void no_events(const char* what)
        {
            auto l = slice();
            VF_CHECK(l.empty(), "touched", "%s: %s %s %zu bytes at a source, though nothing of that kind is due", name.c_str(), what, l.empty() ? "" : l[0].op == Op::Free ? "returned" : "requested", l.empty() ? 0 : l[0].n);
        }

        // Returns by how many blocks what the sources have outstanding changed
        long compare(const char* what, const Seen& e)
        {
            VF_CHECK(e.m.size() == e.s.size(), "sources-called", "%s: %s made %zu calls at the sources, its twin %zu", name.c_str(), what, e.m.size(), e.s.size());
            long change = 0;
            std::vector<const Event*> a, b;
            for (auto& x : e.m)
                if (x.op == Op::Alloc) { a.push_back(&x); change += x.p != nullptr; }
                else change--;
            for (auto& x : e.s)
                if (x.op == Op::Alloc) b.push_back(&x);
            VF_CHECK(a.size() == b.size(), "sources-called", "%s: %s made %zu requests at the sources, its twin %zu", name.c_str(), what, a.size(), b.size());
            // The requests are paired in order
            for (size_t i = 0; i < a.size(); i++)
            {
                VF_CHECK(a[i]->tag + TWIN == b[i]->tag && a[i]->n == b[i]->n && !a[i]->p == !b[i]->p, "sources-called", "%s: %s requested %zu bytes at source %d, its twin %zu at %d", name.c_str(), what, a[i]->n, a[i]->tag, b[i]->n, b[i]->tag - TWIN);
                auto it = inst.emplace(a[i]->inst, b[i]->inst).first;
                VF_CHECK(it->second == b[i]->inst, "another-instance", "%s: %s requested %zu bytes at instance %d of source %d, its twin at another instance", name.c_str(), what, a[i]->n, a[i]->inst, a[i]->tag);
            }
            std::vector<std::tuple<int, int, size_t>> fa, fb;
            for (auto& x : e.m)
                if (x.op == Op::Free)
                {
                    auto it = inst.find(x.inst);
                    fa.emplace_back(x.tag, it == inst.end() ? -1 : it->second, x.n);
                }
            for (auto& x : e.s)
                if (x.op == Op::Free) fb.emplace_back(x.tag - TWIN, x.inst, x.n);
            std::sort(fa.begin(), fa.end());
            std::sort(fb.begin(), fb.end());
            VF_CHECK(fa == fb, "returns-differ", "%s: %s returned %zu blocks, but not to the instances and with the sizes its twin did", name.c_str(), what, fa.size());
            stat("source_calls_compared", e.m.size());
            return change;
        }

        void ledgers(const char* what)
        {
            VF_CHECK(w.error.empty(), w.errorKey.c_str(), "%s: %s: %s", name.c_str(), what, w.error.c_str());
            VF_CHECK(w.droppedLive == 0, "dropped-with-blocks", "%s: %s: a source was given up with %zu blocks outstanding", name.c_str(), what, size_t(w.droppedLive));
        }
    };
}
