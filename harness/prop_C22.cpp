// C22: a collection is a value. Copies (construction, assignment, in containers) hold the same entries as the original and
// from then on nothing done to the one is seen in the other; moves and swaps carry the entries over. Oracle: each collection
// has its own list of functions; contents of all other collections before and after every step.
#include "colworld.h"
using namespace vp;

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    static const size_t maxvars[] = {4, 7, 14};
    ColWorld w(s, draw_variables(s, maxvars[s.pick({3, 4, 2})]));
    w.max_nodes = 250;
    w.max_entries = 14;
    w.begin(100, 80);
    struct Other { bdd_collection col; std::vector<F> model; std::vector<Content> snap; };
    std::vector<Other> others; // elements are copied and moved as the vector grows and shrinks
    auto snap_of = [&](const bdd_collection& c, size_t n) { std::vector<Content> r; for(size_t i = 0; i < n; ++i) r.push_back(content(c, i)); return r; };
    auto check_other = [&](const Other& o, const char* what) {
        VP_CHECK(o.col.nr_bdds() == o.model.size(), "%s: another collection has %zu entries, expected %zu", what, o.col.nr_bdds(), o.model.size());
        VP_CHECK(snap_of(o.col, o.model.size()) == o.snap, "%s: an entry of another collection changed", what);
    };
    for(size_t n = s.draw(5); n > 0; --n) w.op_add(w.fn(2));
    size_t copies = 0, later = 0, switches = 0;
    for(size_t steps = s.range(3, 26), i = 0; i < steps && !w.tired(); ++i) {
        const char* what = "step";
        bool none = w.model.empty();
        switch(s.pick({3, 3, 2, 2, 2, 2, 1, 5, 2, 2, 1})) {
            case 0: if(w.room()) { w.op_add(w.fn(2)); what = "storing"; if(copies) ++later; } break;
            case 1: if(!none && w.room()) { w.op_and2(s.coin()); what = "conjunction"; if(copies) ++later; } break;
            case 2: if(!none && w.room()) { w.op_and_range(s.coin(), s.range(2, 6)); what = "range conjunction"; if(copies) ++later; } break;
            case 3: if(!none && w.room()) { w.op_or_var(false); what = "disjunction"; if(copies) ++later; } break;
            case 4: if(!none) { w.op_rebase(); what = "renaming"; if(copies) ++later; } break;
            case 5: if(!none) { w.op_remove(s.pick({5, 3, 2, 2, 1, 3, 1, 1})); what = "removal"; if(copies) ++later; } break;
            case 6: if(w.room()) { // an entry node by node, perhaps copied while under construction
                size_t v = w.vars[s.draw(w.vars.size() - 1)];
                bool pos = s.coin(), mid = s.coin();
                size_t nr = w.col.new_bdd();
                auto n = w.col.add_bdd_node(v);
                std::unique_ptr<bdd_collection> half;
                if(mid) half.reset(new bdd_collection(w.col));
                if(pos) { n.set_hi_to_1_terminal(); n.set_lo_to_0_terminal(); } else { n.set_hi_to_0_terminal(); n.set_lo_to_1_terminal(); }
                w.col.close_bdd();
                F f = w.rb.variable(v);
                if(!pos) f = w.rb.neg(f);
                VP_CHECK(nr == w.model.size(), "new_bdd returned %zu, expected %zu", nr, w.model.size());
                if(mid) { for(size_t k = 0; k < w.model.size(); ++k) check_entry(w.rb, *half, k, w.model[k], "copy of a collection with an unfinished entry"); label("copied while an entry was under construction"); }
                half.reset();
                w.model.push_back(f);
                check_entry(w.rb, w.col, nr, f, "node by node");
                what = "node by node";
                break;
            }
            case 7: { // a new copy
                what = "copying";
                if(others.size() >= 5) { size_t k = s.draw(others.size() - 1); others.erase(others.begin() + k); }
                auto before = w.snapshot();
                Other o;
                size_t how = s.pick({3, 2, 2, 1, 1});
                VP_LOG("copy the collection, form %zu", how);
                switch(how) {
                    case 0: { bdd_collection c(w.col); o.col = c; break; }
                    case 1: o.col = w.col; break;
                    case 2: { bdd_collection c(w.col); o.col = std::move(c); break; }
                    case 3: { std::vector<bdd_collection> v(3, w.col); v.erase(v.begin()); v.push_back(v[0]); o.col = v.back(); break; }
                    default: { bdd_collection a(w.col); bdd_collection b(std::move(a)); a = b; using std::swap; swap(a, b); o.col = a; } // a moved-from collection is assigned to
                }
                o.model = w.model;
                VP_CHECK(o.col.nr_bdds() == w.model.size() && o.col.size() == w.model.size(), "a copy has %zu entries, the original %zu", o.col.nr_bdds(), w.model.size());
                o.snap = snap_of(o.col, w.model.size());
                VP_CHECK(o.snap == before && w.snapshot() == before, "a copy holds other entries than the original");
                for(size_t k = 0; k < w.model.size(); ++k) check_entry(w.rb, o.col, k, w.model[k], "copy");
                if(s.coin()) others.push_back(o); else others.insert(others.begin(), std::move(o));
                ++copies;
                break;
            }
            case 8: if(!others.empty()) { // go on with another one
                what = "switching";
                size_t k = s.draw(others.size() - 1);
                Other& o = others[k];
                VP_LOG("go on with another collection");
                switch(s.draw(2)) {
                    case 0: { auto mine = w.snapshot(); std::swap(w.col, o.col); std::swap(w.model, o.model); VP_CHECK(w.snapshot() == o.snap, "swapping collections changed entries"); o.snap = mine; break; }
                    case 1: w.col = o.col; w.model = o.model; break;
                    default: w.col = std::move(o.col); w.model = o.model; VP_CHECK(w.snapshot() == o.snap, "moving a collection changed entries"); others.erase(others.begin() + k);
                }
                w.count("switching");
                ++switches;
                break;
            }
            case 9: { bdd_collection& self = w.col; auto before = w.snapshot(); self = w.col; w.count("self-assignment"); VP_CHECK(w.snapshot() == before, "self-assignment changed entries"); what = "self-assignment"; break; }
            default: if(!others.empty()) { // copies taken by different routes work the same
                what = "operations on copies";
                Other& o = others[s.draw(others.size() - 1)];
                if(o.model.size() < 2) break;
                bdd_collection a(o.col), b(o.col);
                size_t x = s.draw(o.model.size() - 1), y = s.draw(o.model.size() - 1);
                if(!w.cheap(o.model[x], o.model[y])) y = x;
                F f = w.rb.conj(o.model[x], o.model[y]);
                if(w.rb.size(f) > w.max_nodes) break;
                a.remove(&x, &x + 1);
                size_t r = b.bdd_and(x, y);
                VP_CHECK(r == o.model.size(), "conjunction in a copy returned %zu, expected %zu", r, o.model.size());
                check_entry(w.rb, b, r, f, "conjunction in a copy");
                VP_CHECK(a.nr_bdds() == o.model.size() - 1, "removal in a copy");
                for(size_t k = 0, q = 0; k < o.model.size(); ++k) if(k != x) check_entry(w.rb, a, q++, o.model[k], "removal in a copy");
                ++later;
            }
        }
        for(const Other& o : others) check_other(o, what);
    }
    w.check_all("at the end");
    bool first = s.coin();
    if(first) w.col = bdd_collection(); // originals go before the copies
    for(const Other& o : others) { check_other(o, "at the end"); for(size_t k = 0; k < o.model.size(); ++k) { check_entry(w.rb, o.col, k, o.model[k], "at the end"); } }
    if(first) { w.model.clear(); w.count("assigned an empty collection"); }
    if(switches) label("went on with a copy");
    if(copies > 0 && later > 0) nontrivial();
}

const Property vp::property = {"C22", "collections that are copied (construction, assignment, containers), moved and swapped between operations on originals and copies, each with its own list of functions; non-trivial: a copy was taken and entries were changed after that", run, 12500, 2400, 120000, 30000, 20};
