// C14: disjunction with literals. Oracle: reference disjunction; canonical size and support; the manager's disjunction.
#include "colworld.h"
using namespace vp;

static void run(Src& s)
{
    draw_hash_mode(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 10, 30};
    ColWorld w(s, draw_variables(s, maxvars[profile]));
    w.max_nodes = 500;
    w.begin(80, 60);
    size_t n0 = s.range(1, 5);
    for(size_t i = 0; i < n0; ++i) w.op_add(w.fn(2));
    size_t steps = s.range(1, 20), calls = 0;
    for(size_t i = 0; i < steps && !w.tired(); ++i) {
        if(w.model.empty()) w.op_add();
        size_t before = w.model.size();
        switch(s.pick({9, 3, 2, 1, 1})) {
            case 0: if(w.room() && w.op_or_var(true)) ++calls; break;
            case 1: if(w.room()) w.op_add(w.fn(2)); break;
            case 2: if(w.room()) w.op_and2(false); break;
            case 3: if(s.coin()) w.op_remove(s.draw(3)); break;
            default: w.op_rebase();
        }
        if(w.model.size() == before + 1) {
            w.check_queries(before, "new entry");
            if(s.chance(1, 3)) w.check_export(before, *w.mgr, "new entry");
        }
        // exhaustively: all sign patterns over up to three variables for one entry
        if(s.chance(1, 12) && !w.large && w.model.size() + 27 < 500 && !w.model.empty()) {
            size_t e = w.some();
            std::vector<size_t> sup = w.rb.support(w.model[e]);
            std::vector<size_t> v3;
            for(int k = 0; k < 3; ++k) v3.push_back(!sup.empty() && s.coin() ? sup[s.draw(sup.size() - 1)] : s.draw(w.nr_vars() + 1));
            std::sort(v3.begin(), v3.end()); v3.erase(std::unique(v3.begin(), v3.end()), v3.end());
            size_t first = w.model.size();
            size_t tot = 1;
            for(size_t k = 0; k < v3.size(); ++k) tot *= 3;
            VP_LOG("all sign patterns over %zu variables on entry %zu", v3.size(), e);
            auto snap = w.snapshot();
            for(size_t p = 0; p < tot; ++p) {
                std::set<size_t> pos, neg;
                F f = w.model[e];
                for(size_t k = 0, q = p; k < v3.size(); ++k, q /= 3) { if(q % 3 == 1) { pos.insert(v3[k]); f = w.rb.disj(f, w.rb.variable(v3[k])); } if(q % 3 == 2) { neg.insert(v3[k]); f = w.rb.disj(f, w.rb.neg(w.rb.variable(v3[k]))); } }
                size_t r = w.col.bdd_or_var(e, pos, neg);
                VP_CHECK(r == w.model.size(), "bdd_or_var returned %zu, expected %zu", r, w.model.size());
                w.model.push_back(f);
                check_entry(w.rb, w.col, r, f, "disjunction with one sign pattern");
            }
            w.unchanged(snap, "disjunctions with literals");
            std::vector<size_t> rem;
            for(size_t k = first; k < w.model.size(); ++k) rem.push_back(k);
            w.col.remove(rem.begin(), rem.end());
            w.model.resize(first);
            w.check_all("after removing them again");
            ++calls;
            label("all sign patterns");
        }
    }
    w.check_all("at the end");
    if(calls >= 2) nontrivial();
}

const Property vp::property = {"C14", "collections of random diagrams (constants included) disjoined with sets of positive and negative literals above, between, inside and below the support, including empty and complementary sets; non-trivial: at least two such disjunctions", run, 10000, 2000, 120000, 30000, 20};
