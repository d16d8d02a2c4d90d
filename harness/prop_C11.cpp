// C11: import into and export from a collection. Oracle: reference functions; same handle in the same manager,
// canonical diagram in any other.
#include "colworld.h"
using namespace vp;

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({4, 4, 2, 2});
    static const size_t maxvars[] = {5, 9, 24, 13};
    ColWorld w(s, draw_variables(s, maxvars[profile]));
    w.max_nodes = profile == 3 ? 3000 : 600;
    w.begin(80, 60);
    std::vector<Item> held; // handles into the source manager
    std::vector<std::pair<size_t, node_ref>> origin; // entry number, handle it was stored from
    bdd_mgr other;
    bool other_used = false;
    size_t steps = s.range(2, 30), exports = 0, consts = 0;
    for(size_t i = 0; i < steps && !w.tired(); ++i) {
        switch(s.pick({6, w.model.empty() ? 0u : 6u, 3, 2, 2, w.model.empty() ? 0u : 2u, 1, profile == 3 ? 2u : 0u})) {
            case 0: { // store a diagram
                if(!w.room()) break;
                F f = w.fn(2);
                auto snap = w.snapshot();
                node_ref h = s.chance(1, 4) && !held.empty() ? held[s.draw(held.size() - 1)].h : w.in_manager(f);
                { Reader rd(w.rb); f = rd(h); }
                if(w.rb.size(f) > w.max_nodes) break;
                size_t nodes = w.mgr->nr_nodes(), refs = h.reference_count();
                VP_LOG("store %s", w.rb.text(f).c_str());
                size_t nr = w.col.add_bdd(h);
                VP_CHECK(w.mgr->nr_nodes() == nodes, "storing a diagram changed the manager's node count");
                if(!h.is_terminal()) VP_CHECK(h.reference_count() == refs, "storing a diagram changed its reference count");
                check_denotes(w.rb, h, f, "source diagram after storing it");
                w.appended(nr, f, snap, "add_bdd");
                w.check_queries(nr, "add_bdd");
                if(f < 2) { ++consts; label("constant stored"); }
                if(s.chance(1, 3)) held.push_back({h, f});
                if(s.chance(1, 2)) origin.push_back({nr, h});
                if(held.size() > 10) held.erase(held.begin());
                if(origin.size() > 10) origin.erase(origin.begin());
                break;
            }
            case 1: { // bring one back
                size_t nr = w.some();
                size_t k = s.draw(2);
                VP_LOG("bring back entry %zu into %s", nr, k == 0 ? "the same manager" : k == 1 ? "another manager" : "a fresh manager");
                auto snap = w.snapshot();
                if(k == 0) {
                    w.check_export(nr, *w.mgr, "same manager");
                    for(auto& [e, h] : origin) if(e == nr) {
                        while(w.mgr->nr_variables() < w.nr_vars()) w.mgr->add_variable();
                        VP_CHECK(w.col.export_bdd(*w.mgr, nr) == h, "export_bdd into the source manager gives another handle than the one stored");
                        VP_CHECK(w.mgr->add_bdd(w.col, nr) == h, "add_bdd into the source manager gives another handle than the one stored");
                        label("compared with the stored handle");
                    }
                } else if(k == 1) { w.check_export(nr, other, "another manager"); other_used = true; }
                else { bdd_mgr fresh; w.check_export(nr, fresh, "fresh manager"); label("fresh manager"); }
                w.unchanged(snap, "export"); w.count("export");
                ++exports;
                break;
            }
            case 2: { // operations in the source manager
                if(held.empty()) break;
                Item a = held[s.draw(held.size() - 1)], b = held[s.draw(held.size() - 1)];
                if(!w.cheap(a.f, b.f)) break;
                node_ref r = w.mgr->xor_rec(a.h, w.mgr->or_rec(b.h, w.in_manager(w.rb.variable(w.vars[0]))));
                F f = w.rb.exor(a.f, w.rb.disj(b.f, w.rb.variable(w.vars[0])));
                check_denotes(w.rb, r, f, "operation between imports");
                if(w.rb.size(f) < w.max_nodes) held.push_back({r, f});
                break;
            }
            case 3: { // collect in the source manager
                bool drop = s.coin();
                if(drop) { held.clear(); origin.clear(); label("sources dropped and collected"); }
                VP_LOG("collect_garbage%s", drop ? " with all handles dropped" : "");
                w.mgr->collect_garbage();
                if(drop) VP_CHECK(w.mgr->nr_nodes() == 2, "%zu nodes left in the manager although no handle exists: stored diagrams must not hold nodes", w.mgr->nr_nodes());
                w.check_all("after a collection");
                for(Item& h : held) { Reader rd(w.rb); VP_CHECK(rd(h.h) == h.f, "a held diagram changed"); }
                break;
            }
            case 4: { // source manager destroyed
                if(s.chance(2, 3)) break;
                VP_LOG("source manager destroyed");
                held.clear(); origin.clear();
                w.mgr.reset(new bdd_mgr);
                w.check_all("after the source manager was destroyed");
                label("source manager destroyed");
                break;
            }
            case 5: if(w.model.size() >= 2) { if(s.coin()) w.op_and2(false); else w.op_or_var(false); origin.clear(); } break;
            case 6: if(!w.model.empty()) { w.op_remove(s.draw(3)); origin.clear(); } break;
            default: if(w.room()) { // a big diagram
                std::vector<size_t> vs = w.vars;
                while(vs.size() > 11) vs.pop_back();
                uint64_t seed = s.draw(1 << 20);
                std::function<F(size_t, uint64_t)> go = [&](size_t k, uint64_t p) -> F { if(k == vs.size()) return mix(mix(seed) ^ p) & 1; F l = go(k + 1, 2 * p), u = go(k + 1, 2 * p + 1); return w.rb.mk(vs[k], l, u); };
                w.op_add(go(0, 1));
                label("large diagram");
            }
        }
    }
    w.check_all("at the end");
    std::vector<node_ref> ex;
    for(size_t nr = 0; nr < w.model.size(); ++nr) { w.check_export(nr, other, "at the end"); w.check_queries(nr, "at the end"); }
    size_t total = 0;
    for(size_t nr = 0; nr < w.model.size(); ++nr) total += w.col.nr_bdd_nodes(nr);
    if(total > 1000) label("more than 1000 stored nodes");
    if(w.model.size() >= 3 && (exports > 0 || consts > 0)) nontrivial();
    (void)other_used;
}

const Property vp::property = {"C11", "diagrams (constants included) stored in a collection and brought back by both routes into the same, another and a fresh manager, between operations, collections and destruction of the source; non-trivial: at least three entries and an export or a constant", run, 6400, 1500, 120000, 30000, 20};
