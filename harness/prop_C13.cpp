// C13: node limit and refusal. Oracle: exact size of the reference conjunction, and the collection's content before a refusal.
#include "colworld.h"
using namespace vp;

static void run(Src& s)
{
    draw_hash_mode(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 10, 30};
    ColWorld w(s, draw_variables(s, maxvars[profile]));
    w.max_nodes = 500;
    w.begin(80, 60);
    size_t n0 = s.range(2, 6);
    for(size_t i = 0; i < n0; ++i) w.op_add();
    size_t steps = s.range(1, 20), calls = 0;
    for(size_t i = 0; i < steps && !w.tired(); ++i) {
        if(w.model.empty()) w.op_add();
        switch(s.pick({6, 5, 3, 2, 1, 1, 4, 1})) {
            case 0: if(w.room() && w.op_and2(true)) ++calls; break;
            case 1: if(w.room() && w.op_and_range(true, w.draw_range_length())) ++calls; break;
            case 2: if(w.room()) w.op_add(); break;
            case 3: w.op_bad_range(); break;
            case 4: if(w.room()) w.op_or_var(false); break;
            case 5: if(s.coin()) w.op_remove(s.draw(3)); else w.op_rebase(); break;
            case 7: if(w.room()) { w.op_and_essential(true, s.range(2, 49)); ++calls; } break;
            default: { // pairwise and range forms agree on the same operands, at every limit around the exact size
                size_t a = w.some(), b = w.some();
                if(!w.cheap(w.model[a], w.model[b])) b = a;
                F f = w.rb.conj(w.model[a], w.model[b]);
                size_t n = w.rb.size(f) + 2;
                if(w.rb.size(f) > w.max_nodes || w.model.size() + 8 > w.max_entries) break;
                for(size_t d = 0; d < 3; ++d) {
                    size_t limit = std::max<size_t>(3, n - 1 + d);
                    bool refuse = n > limit;
                    std::vector<size_t> two{a, b}, three{a, b, s.coin() ? a : b}, four{b, a, b, a};
                    VP_LOG("all forms on %zu and %zu, %zu nodes, limit %zu", a, b, n, limit);
                    unsigned form = s.draw(3);
                    auto snap = w.snapshot();
                    size_t r = form == 0 ? w.col.bdd_and(a, b, limit) : form == 1 ? w.col.bdd_and(two.begin(), two.end(), limit) : form == 2 ? w.col.bdd_and(three.begin(), three.end(), limit) : w.col.bdd_and(four.begin(), four.end(), limit);
                    static const char* nm[] = {"pairwise form", "range of two", "range of three", "range of four"};
                    w.done(r, f, refuse, limit, snap, nm[form]);
                    ++calls;
                }
                label("forms compared");
            }
        }
        if(w.refused > 0 && s.chance(1, 3)) w.check_all("after a refusal");
    }
    w.check_all("at the end");
    for(size_t nr = 0; nr < w.model.size(); ++nr) w.check_queries(nr, "at the end");
    if(calls >= 2 && w.refused > 0) nontrivial();
}

const Property vp::property = {"C13", "collections with conjunctions under node limits around the exact size of the result (pairwise, ranges, unsupported lengths) followed by further operations; non-trivial: at least two limited conjunctions of which one was refused", run, 10000, 2000, 120000, 30000, 20};
