// C15: removal of entries. Oracle: list of functions and of entry contents; later operations run against the same model.
#include "colworld.h"
using namespace vp;

static void run(Src& s)
{
    draw_hash_mode(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 9, 24};
    ColWorld w(s, draw_variables(s, maxvars[profile]));
    w.max_nodes = 400;
    w.begin(60, 60);
    size_t n0 = s.range(1, s.chance(1, 5) ? 40 : 10);
    for(size_t i = 0; i < n0; ++i) w.op_add(w.fn(2));
    size_t steps = s.range(1, 18), removals = 0, later = 0;
    for(size_t i = 0; i < steps && !w.tired(); ++i) {
        size_t n = w.model.size();
        if(n == 0) { w.op_add(w.fn(2)); ++later; continue; }
        switch(s.pick({6, 3, 3, 3, 2, 2, 2})) {
            case 0: {
                size_t how = s.pick({5, 3, 2, 2, 1, 3, 1, 1});
                if(w.large && s.chance(1, 3)) how = 8;
                w.op_remove(how);
                ++removals;
                break;
            }
            case 1: if(w.room()) { w.op_add(w.fn(2)); if(removals) ++later; } break;
            case 2: if(w.room() && w.op_and2(s.coin()) && removals) ++later; break;
            case 3: if(w.room() && w.op_and_range(s.coin(), s.range(2, 7)) && removals) ++later; break;
            case 4: if(w.room() && w.op_or_var(false) && removals) ++later; break;
            case 5: w.op_rebase(); if(removals) ++later; break;
            default: for(size_t k = 0; k < n && k < 6; ++k) { size_t e = w.some(); w.check_queries(e, "queries"); w.check_export(e, *w.mgr, "queries"); }
        }
        size_t total = 0;
        for(size_t k = 0; k < w.model.size(); ++k) total += w.col.nr_bdd_nodes(k);
        if(total > 1000) label("more than 1000 stored nodes");
    }
    w.check_all("at the end");
    for(size_t nr = 0; nr < w.model.size(); ++nr) w.check_queries(nr, "at the end");
    // the same entries in a collection that never held the others
    bdd_collection fresh;
    for(size_t nr = 0; nr < w.model.size(); ++nr) { size_t r = fresh.add_bdd(w.in_manager(w.model[nr])); VP_CHECK(r == nr && fresh.nr_bdd_nodes(r) == w.col.nr_bdd_nodes(nr) && fresh.variables(r) == w.col.variables(nr), "entry %zu differs from one in a fresh collection", nr); }
    if(removals > 0 && w.removed > 0 && later > 0) nontrivial();
}

const Property vp::property = {"C15", "collections from which sets of entries (none, some, first, last, blocks, all) are removed between further operations, compared with a list model and with the contents before; non-trivial: something was removed and operations followed", run, 10000, 2000, 120000, 30000, 20};
