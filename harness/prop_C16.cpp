// C16: renaming and queries of collection entries. Oracle: renaming in the reference package, support, sizes, counts per variable.
#include "colworld.h"
using namespace vp;

static void run(Src& s)
{
    draw_hash_mode(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 9, 24};
    ColWorld w(s, draw_variables(s, maxvars[profile]));
    w.max_nodes = 400;
    w.begin(80, 60);
    size_t n0 = s.range(1, 8);
    for(size_t i = 0; i < n0; ++i) w.op_add(w.fn(2));
    size_t steps = s.range(1, 20), renames = 0, queries = 0;
    for(size_t i = 0; i < steps && !w.tired(); ++i) {
        if(w.model.empty()) w.op_add();
        switch(s.pick({14, 12, 4, 2, 2, 2, 2, 1})) {
            case 0: w.op_rebase(); ++renames; break;
            case 1: { size_t e = w.some(); VP_LOG("queries on entry %zu", e); w.check_queries(e, "queries"); if(w.model[e] < 2) label("queries on a constant"); ++queries; break; }
            case 2: if(w.room()) w.op_add(w.fn(2)); break;
            case 3: if(w.room()) w.op_and2(false); break;
            case 4: if(w.room()) w.op_or_var(true); break;
            case 5: w.check_export(w.some(), *w.mgr, "entry"); break;
            case 7: w.op_rebase_far(); ++renames; break;
            default: if(s.coin()) w.op_remove(s.draw(3));
        }
    }
    for(size_t nr = 0; nr < w.model.size(); ++nr) w.check_queries(nr, "at the end");
    w.check_all("at the end");
    // every variable of every entry
    for(size_t nr = 0; nr < w.model.size() && nr < 10; ++nr) {
        size_t sum = 0;
        std::vector<size_t> sup = w.col.variables(nr);
        auto per = w.rb.nodes_per_variable(w.model[nr]);
        for(size_t v = 0; v <= (sup.empty() ? 0 : sup.back()) + 2; ++v) {
            size_t k = w.col.nr_bdd_nodes(nr, v);
            VP_CHECK(k == per[v], "entry %zu has %zu nodes on variable %zu, expected %zu", nr, k, v, per[v]);
            sum += k;
            // in a wide entry only variables of the support and their neighbours
            if(w.col.nr_bdd_nodes(nr) > 1500) { auto it = std::upper_bound(sup.begin(), sup.end(), v); if(it != sup.end() && *it > v + 2) v = *it - 2; }
        }
        VP_CHECK(sum + 2 == w.col.nr_bdd_nodes(nr), "node counts per variable of entry %zu add up to %zu, the entry has %zu nodes", nr, sum, w.col.nr_bdd_nodes(nr));
    }
    if(renames > 0 && w.model.size() >= 2) nontrivial();
}

const Property vp::property = {"C16", "collections whose entries are renamed (associative and vector maps, directly and through the wrapper, with entries outside the support, constants) and queried in every form; non-trivial: at least one renaming in a collection of two or more entries", run, 11250, 2200, 120000, 30000, 20};
