// C12: conjunction in a collection. Oracle: reference conjunction, canonical size and support, and the manager's conjunction.
#include "colworld.h"
using namespace vp;

static void run(Src& s)
{
    draw_hash_mode(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 10, 30};
    ColWorld w(s, draw_variables(s, maxvars[profile]));
    w.max_nodes = 500;
    w.begin(80, 60);
    size_t n0 = s.range(2, 6);
    for(size_t i = 0; i < n0; ++i) w.op_add();
    size_t steps = s.range(1, 20), pair = 0, range = 0;
    for(size_t i = 0; i < steps && !w.tired(); ++i) {
        if(w.model.empty()) w.op_add();
        size_t before = w.model.size();
        switch(s.pick({5, 5, 3, 1, 1, 1, 1})) {
            case 0: if(w.room() && w.op_and2(false)) ++pair; break;
            case 1: if(w.room() && w.op_and_range(false, w.draw_range_length())) ++range; break;
            case 2: if(w.room()) w.op_add(); break;
            case 3: if(w.room()) w.op_or_var(false); break;
            case 4: if(s.chance(1, 2)) w.op_remove(s.draw(3)); break;
            case 5: w.op_rebase(); break;
            default: if(w.room()) { w.op_and_essential(false, s.range(1, 49)); ++range; }
        }
        if(w.model.size() == before + 1) {
            size_t nr = before;
            w.check_queries(nr, "new entry");
            // exporting gives the handle the manager's operations give
            if(s.chance(1, 3)) {
                w.check_export(nr, *w.mgr, "new entry");
                size_t a = w.some(), b = w.some();
                if(!w.cheap(w.model[a], w.model[b])) b = a;
                if(hash_mode() > HASH_SEEDED && w.rb.support(w.rb.conj(w.model[a], w.model[b])).size() > 15) b = a;
                F f = w.rb.conj(w.model[a], w.model[b]);
                if(w.rb.size(f) <= w.max_nodes && w.room()) {
                    while(w.mgr->nr_variables() < w.nr_vars() + 60) w.mgr->add_variable();
                    node_ref x = w.mgr->and_rec(w.mgr->add_bdd(w.col, a), w.mgr->add_bdd(w.col, b));
                    auto snap = w.snapshot();
                    size_t c = w.col.bdd_and(a, b);
                    w.appended(c, f, snap, "conjunction");
                    VP_CHECK(w.col.export_bdd(*w.mgr, c) == x, "exporting the conjunction gives another handle than the manager's conjunction");
                    label("compared with the manager's conjunction");
                }
            }
        }
    }
    w.check_all("at the end");
    if(pair + range >= 2 && (range > 0 || pair > 2)) nontrivial();
}

const Property vp::property = {"C12", "collections of random diagrams with pairwise and range conjunctions (1 to 49 operands, repeats, constants, contradictions, long ranges in which every operand matters) between other operations, every new entry compared with the canonical diagram of the conjunction, all old entries compared with their content before; non-trivial: two conjunctions of which one over a range, or three", run, 10000, 2000, 120000, 30000, 20};
