// C10: cost follows size. Bounded-width diagrams of dozens to hundreds of levels: few nodes, up to 2^300 paths.
// Oracle: reference package for the results, a CPU limit per case far above the polynomial cost for the effort.
#include "colworld.h"
#include "bdd_node_depth.h"
#include <sstream>
using namespace vp;

// a layered diagram over the given variables
static F ladder(Src& s, RB& rb, const std::vector<size_t>& vars)
{
    size_t first = 0, last = vars.size();
    if(s.chance(1, 4)) { first = s.draw(vars.size() / 3); last = vars.size() - s.draw(vars.size() / 3); } // on some of the levels
    switch(s.pick({3, 3, 5, 2, 2})) {
        case 0: { // parity
            F f = s.coin();
            F e = f, o = !f;
            for(size_t i = last; i-- > first;) { F a = rb.mk(vars[i], e, o), b = rb.mk(vars[i], o, e); e = a; o = b; }
            label("parity");
            return e;
        }
        case 1: { // number of true variables modulo k is r
            size_t k = s.range(2, 5), r = s.draw(k - 1);
            std::vector<F> c(k);
            for(size_t j = 0; j < k; ++j) c[j] = j == r;
            for(size_t i = last; i-- > first;) { std::vector<F> d(k); for(size_t j = 0; j < k; ++j) d[j] = rb.mk(vars[i], c[j], c[(j + 1) % k]); c = d; }
            label("modular counter");
            return c[0];
        }
        case 2: { // random arcs between layers; the first two nodes of a layer always differ
            size_t w = s.range(2, 4);
            uint64_t seed = s.draw(1 << 20);
            unsigned skip = s.draw(2); // how often a level is skipped
            std::vector<F> c{0, 1};
            for(size_t j = 2; j < w; ++j) c.push_back(j & 1);
            for(size_t i = last; i-- > first;) {
                std::vector<F> d(w);
                for(size_t j = 0; j < w; ++j) {
                    uint64_t r = mix(seed * 131 + i * 17 + j);
                    size_t a = (j + (r & 1)) % w, b = (r >> 8) % w;
                    if(a == b) b = (a + 1) % w;
                    d[j] = skip && (r >> 20) % 8 < skip ? c[a] : rb.mk(vars[i], c[a], c[b]);
                }
                if(d[0] == d[1]) { d[0] = rb.mk(vars[i], c[0], c[1]); d[1] = rb.mk(vars[i], c[1], c[0]); }
                c = d;
            }
            label("random layers");
            return c[0];
        }
        case 3: { // at least / exactly a few true
            size_t b = s.range(1, 4);
            bool exact = s.coin();
            std::vector<F> c(b + 2, 0);
            c[b] = 1; if(!exact) c[b + 1] = 1;
            for(size_t i = last; i-- > first;) { std::vector<F> d(b + 2); for(size_t j = 0; j < b + 2; ++j) d[j] = rb.mk(vars[i], c[j], c[std::min(j + 1, b + 1)]); c = d; }
            label("cardinality");
            return c[0];
        }
        default: { // equality of neighbours: every diamond has its own tail
            F c = 1;
            for(size_t i = first + ((last - first) & ~size_t(1)); i >= first + 2; i -= 2) { F p = rb.mk(vars[i - 1], c, 0), q = rb.mk(vars[i - 1], 0, c); c = s.chance(1, 5) ? rb.mk(vars[i - 2], q, p) : rb.mk(vars[i - 2], p, q); }
            label("chain of diamonds");
            return c;
        }
    }
}

// number of root-to-terminal paths, as a logarithm
static double log_paths(RB& rb, F f)
{
    std::unordered_map<F, double> c;
    std::vector<F> r = rb.reach(f);
    std::sort(r.begin(), r.end(), [&](F a, F b) { return rb.var(a) > rb.var(b); });
    auto val = [&](F x) { return RB::leaf(x) ? 0.0 : c[x]; };
    for(F x : r) { double a = val(rb.lo(x)), b = val(rb.hi(x)), m = std::max(a, b); c[x] = m + std::log2(std::exp2(a - m) + std::exp2(b - m)); }
    return val(f);
}

static size_t cost(const RB& rb, F f, F g, size_t levels) { return (1 + rb.size(f) / levels) * (1 + rb.size(g) / levels) * levels; }

static void queries(World& w, Src& s, Item a)
{
    RB& rb = w.rb;
    size_t n = rb.size(a.f);
    VP_LOG("queries on %s", rb.text(a.f).c_str());
    VP_CHECK(a.h.nr_nodes() == n, "nr_nodes is %zu, expected %zu", a.h.nr_nodes(), n);
    VP_CHECK(a.h.variables() == rb.support(a.f), "variables() is not the support");
    auto po = a.h.nodes_postorder();
    VP_CHECK(po.size() == n, "postorder lists %zu nodes, expected %zu", po.size(), n);
    { std::unordered_set<void*> seen; for(node_ref& x : po) { for(node_ref c : {x.low(), x.high()}) VP_CHECK(c.is_terminal() || seen.count(c.address()), "postorder lists a node before its child"); VP_CHECK(seen.insert(x.address()).second, "postorder lists a node twice"); } }
    auto bf = a.h.nodes_bfs();
    VP_CHECK(bf.size() == n, "breadth-first order lists %zu nodes, expected %zu", bf.size(), n);
    { std::unordered_set<void*> seen; for(node_ref& x : bf) VP_CHECK(seen.insert(x.address()).second, "breadth-first order lists a node twice"); }
    VP_CHECK(a.h.exactly_one_solution() == (rb.solutions(a.f) == 1), "exactly_one_solution is wrong");
    std::vector<char> x = sample_assignment(s.draw(1000), w.vars.back() + 1);
    VP_CHECK(a.h.evaluate(x.begin(), x.end()) == rb.eval(a.f, [&](uint64_t v) { return x[v]; }), "evaluation is wrong");
    BDD::bdd_node_depth d;
    d.add_botsink(w.mgr->botsink().address()); d.add_topsink(w.mgr->topsink().address());
    size_t last = 0;
    for(node_ref& y : po) last = d.add_node(y.address());
    VP_CHECK(last == rb.depth(a.f), "depth is %zu, the longest path has %zu nodes", last, rb.depth(a.f));
    std::ostringstream os;
    a.h.print(os);
    std::string t = os.str();
    VP_CHECK((size_t)std::count(t.begin(), t.end(), '\n') >= 2 * n, "printing lists fewer than two arcs per node");
    label("queries");
}

static void run(Src& s)
{
    // keys as the library draws them: memoisation relies on keys that spread
    if(s.coin()) set_hash_mode(HASH_SEEDED, s.draw(1000)); else set_hash_mode(HASH_NATURAL, 0);
    size_t levels = s.range(30, 90);
    if(s.chance(1, 2)) levels += s.draw(tier ? 350 : 130);
    std::vector<size_t> vars;
    size_t cur = s.chance(1, 3) ? s.draw(5) : 0, gap = s.pick({3, 1});
    for(size_t i = 0; i < levels; ++i) { vars.push_back(cur); cur += 1 + (gap ? mix(i) % 3 : 0); }
    World w(s, vars, false);
    w.s_check_operands = false;
    w.max_nodes = 12 * levels;
    RB& rb = w.rb;
    while(w.mgr->nr_variables() <= vars.back()) w.mgr->add_variable();
    std::unique_ptr<bdd_collection> col(new bdd_collection);
    std::vector<F> model;
    double paths = 0;
    auto fresh = [&]() { F f = ladder(s, rb, vars); VP_LOG("ladder %s", rb.text(f).c_str()); w.push(build(rb, *w.mgr, f), f); paths = std::max(paths, log_paths(rb, f)); };
    w.push(w.mgr->projection(vars[0]), rb.variable(vars[0]));
    for(int i = 0; i < 3; ++i) fresh();
    size_t budget = 60 * levels; // allowed product of widths times levels
    auto stored = [&](size_t nr, F f, const char* what) {
        VP_CHECK(nr == model.size() && col->nr_bdds() == nr + 1, "%s: returned %zu with %zu entries stored before", what, nr, model.size());
        model.push_back(f);
        check_entry(rb, *col, nr, f, what);
    };
    size_t steps = s.range(3, 16), big = 0;
    for(size_t i = 0; i < steps; ++i) {
        Item a = w.pool[w.some()], b = w.pool[w.some()], c = w.pool[w.some()];
        if(s.chance(1, 6)) a = w.sub(a);
        if(s.chance(1, 6)) b = w.sub(b);
        if(log_paths(rb, a.f) > 25) ++big;
        switch(s.pick({6, 3, 2, 3, 2, 3, 2, 2, 12})) {
            case 0: { // and, or, xor
                if(cost(rb, a.f, b.f, levels) > budget) break;
                int k = s.draw(2);
                bool swap = s.coin();
                if(swap) std::swap(a, b);
                VP_LOG("%s of %s and %s", World::opname(k), rb.text(a.f).c_str(), rb.text(b.f).c_str());
                node_ref r = w.apply2(k, a.h, b.h);
                w.result(r, w.apply(k, a.f, b.f), World::opname(k));
                if(s.coin()) VP_CHECK(w.apply2(k, b.h, a.h) == r, "%s with swapped operands gives another handle", World::opname(k));
                char l[32]; snprintf(l, sizeof l, "operation: %s", World::opname(k)); label(l);
                break;
            }
            case 1: w.op_negate(); break;
            case 2: { // if-then-else
                if(cost(rb, a.f, b.f, levels) * (1 + rb.size(c.f) / levels) > budget) break;
                VP_LOG("ite of %s, %s, %s", rb.text(a.f).c_str(), rb.text(b.f).c_str(), rb.text(c.f).c_str());
                w.result(w.mgr->ite_rec(a.h, b.h, c.h), rb.ite(a.f, b.f, c.f), "if-then-else");
                label("operation: ite");
                break;
            }
            case 3: { // limited conjunction
                if(cost(rb, a.f, b.f, levels) > budget) break;
                F f = rb.conj(a.f, b.f);
                size_t n = rb.size(f);
                for(unsigned k = s.range(1, 3); k > 0; --k) {
                    size_t limit = 0;
                    switch(s.pick({2, 2, 2, 1})) { case 0: limit = n; break; case 1: limit = n + 1; break; case 2: limit = s.draw(n); break; default: limit = std::numeric_limits<size_t>::max(); }
                    VP_LOG("limited conjunction of %s and %s, limit %zu, result has %zu", rb.text(a.f).c_str(), rb.text(b.f).c_str(), limit, n);
                    auto [h, cnt] = w.mgr->and_rec_limited(a.h, b.h, limit);
                    if(n < limit) { VP_CHECK(h.address() != nullptr && cnt == n, "limited conjunction refused or counted %zu nodes; limit %zu, result has %zu", cnt, limit, n); w.result(h, f, "limited conjunction"); }
                    else VP_CHECK(h.address() == nullptr, "limited conjunction was not refused; limit %zu, result has %zu", limit, n);
                    if(s.chance(1, 4)) w.mgr->collect_garbage();
                }
                label("operation: limited and");
                break;
            }
            case 4: { // renaming
                std::vector<size_t> sup = rb.support(a.f);
                std::map<size_t, size_t> mp;
                size_t d = s.draw(3);
                for(size_t j = 0; j < sup.size(); ++j) mp[sup[j]] = d == 0 ? j : sup[j] + d;
                F f = rb.rename(a.f, [&](uint64_t v) { return mp[v]; });
                VP_LOG("rename %s", rb.text(a.f).c_str());
                node_ref r;
                if(s.coin() || sup.empty()) r = w.mgr->rebase(a.h, mp);
                else { std::vector<size_t> v(sup.back() + 1, 0); for(auto [x, y] : mp) v[x] = y; r = w.mgr->rebase(a.h, v.begin(), v.end()); }
                Reader rd(rb);
                VP_CHECK(rd(r) == f, "renamed diagram denotes another function");
                if(d == 0 && s.coin()) { std::map<size_t, size_t> inv; for(auto [x, y] : mp) inv[y] = x; VP_CHECK(w.mgr->rebase(r, inv) == a.h, "renaming back gives another handle"); }
                label("operation: rename");
                break;
            }
            case 5: queries(w, s, a); break;
            case 6: { // collections
                if(s.coin()) w.op_drop();
                a = b = c = Item{};
                w.op_gc();
                label("operation: collect");
                break;
            }
            case 7: fresh(); break;
            default: { // stored diagrams
                a = b = c = Item{};
                size_t kind = model.size() < 3 ? 0 : 1 + s.draw(5);
                if(model.size() > 14) kind = 5;
                char l[40]; static const char* nm[] = {"store", "pair conjunction", "range conjunction", "literals", "export", "remove", "rename/queries"}; snprintf(l, sizeof l, "stored: %s", nm[kind]); label(l);
                VP_LOG("%s", l);
                switch(kind) {
                    case 0: { Item x = w.pool[w.some()]; if(log_paths(rb, x.f) < 25) { fresh(); x = w.pool.back(); } stored(col->add_bdd(x.h), x.f, "add_bdd"); break; }
                    case 1: {
                        size_t x = s.draw(model.size() - 1), y = s.draw(model.size() - 1);
                        if(cost(rb, model[x], model[y], levels) > budget) break;
                        F f = rb.conj(model[x], model[y]);
                        size_t n = rb.size(f) + 2;
                        if(s.chance(1, 3) && n > 3) {
                            size_t r = col->bdd_and(x, y, n - 1);
                            VP_CHECK(r == std::numeric_limits<size_t>::max() && col->nr_bdds() == model.size(), "pairwise conjunction above the node limit was stored");
                        }
                        stored(s.coin() ? col->bdd_and(x, y) : col->bdd_and(x, y, std::max<size_t>(n, 3)), f, "pairwise conjunction");
                        break;
                    }
                    case 2: {
                        size_t n = s.range(3, 7);
                        std::vector<size_t> idx;
                        size_t prod = levels;
                        F f = 1;
                        for(size_t k = 0; k < n; ++k) {
                            size_t x = s.draw(model.size() - 1);
                            bool again = std::find(idx.begin(), idx.end(), x) != idx.end();
                            if(!again && prod * (1 + rb.size(model[x]) / levels) > budget) { if(idx.empty()) break; x = idx[s.draw(idx.size() - 1)]; again = true; }
                            if(!again) prod *= 1 + rb.size(model[x]) / levels;
                            idx.push_back(x);
                            f = rb.conj(f, model[x]);
                        }
                        if(idx.size() < 3) break;
                        VP_LOG("range of %zu", idx.size());
                        stored(col->bdd_and(idx.begin(), idx.end()), f, "range conjunction");
                        break;
                    }
                    case 3: {
                        size_t x = s.draw(model.size() - 1);
                        if(rb.size(model[x]) > 20 * levels) break;
                        std::set<size_t> pos, neg;
                        F f = model[x];
                        for(unsigned k = s.range(1, 5); k > 0; --k) { size_t v = vars[s.draw(levels - 1)]; if(s.coin()) { if(!neg.count(v)) pos.insert(v); } else if(!pos.count(v)) neg.insert(v); }
                        for(size_t v : pos) f = rb.disj(f, rb.variable(v));
                        for(size_t v : neg) f = rb.disj(f, rb.neg(rb.variable(v)));
                        stored(col->bdd_or_var(x, pos, neg), f, "disjunction with literals");
                        break;
                    }
                    case 4: {
                        size_t x = s.draw(model.size() - 1);
                        bool own = s.coin();
                        bdd_mgr other;
                        bdd_mgr& m = own ? *w.mgr : other;
                        while(m.nr_variables() <= cur + 500) m.add_variable();
                        node_ref h = s.coin() ? col->export_bdd(m, x) : m.add_bdd(*col, x);
                        Reader rd(rb);
                        VP_CHECK(rd(h) == model[x], "exported diagram denotes another function");
                        VP_CHECK(h.nr_nodes() == rb.size(model[x]), "exported diagram has %zu nodes, expected %zu", h.nr_nodes(), rb.size(model[x]));
                        break;
                    }
                    case 5: {
                        std::vector<size_t> rem;
                        for(size_t x = 0; x < model.size(); ++x) if(s.chance(1, 3)) rem.push_back(x);
                        std::vector<F> m2;
                        for(size_t x = 0; x < model.size(); ++x) if(!std::binary_search(rem.begin(), rem.end(), x)) m2.push_back(model[x]);
                        col->remove(rem.begin(), rem.end());
                        model = m2;
                        VP_CHECK(col->nr_bdds() == model.size(), "%zu entries after a removal, expected %zu", col->nr_bdds(), model.size());
                        for(size_t x = 0; x < model.size(); ++x) check_entry(rb, *col, x, model[x], "removal");
                        break;
                    }
                    default: {
                        size_t x = s.draw(model.size() - 1);
                        VP_CHECK(col->variables(x) == rb.support(model[x]), "variables of an entry are not the support");
                        check_entry_evaluation(rb, *col, x, model[x], vars.back() + 1, i, 3, "stored diagram");
                        std::vector<size_t> sup = rb.support(model[x]);
                        if(!sup.empty()) VP_CHECK(col->nr_bdd_nodes(x, sup[sup.size() / 2]) == rb.nodes_on(model[x], sup[sup.size() / 2]), "wrong number of nodes on a variable");
                        std::ostringstream os;
                        col->export_graphviz(x, os);
                        VP_CHECK(os.str().size() < 400 + 200 * rb.size(model[x]), "graphviz output out of proportion");
                        std::map<size_t, size_t> mp;
                        for(size_t j = 0; j < sup.size(); ++j) mp[sup[j]] = sup[j] + 1;
                        col->rebase(x, mp);
                        F up = rb.rename(model[x], [](uint64_t v) { return v + 1; });
                        check_entry(rb, *col, x, up, "renamed entry");
                        std::map<size_t, size_t> inv;
                        for(auto [p, q] : mp) inv[q] = p;
                        col->rebase(x, inv);
                        check_entry(rb, *col, x, model[x], "entry renamed back");
                    }
                }
            }
        }
        while(w.pool.size() > 8) w.pool.erase(w.pool.begin() + 1 + s.draw(w.pool.size() - 2));
    }
    w.check_pool("at the end");
    for(Item& it : w.pool) queries(w, s, it);
    w.pool.clear();
    w.mgr->collect_garbage();
    VP_CHECK(w.mgr->nr_nodes() == 2, "%zu nodes left after all handles were dropped", w.mgr->nr_nodes());
    label(levels < 60 ? "below 60 levels" : levels < 120 ? "60 to 120 levels" : levels < 250 ? "120 to 250 levels" : "above 250 levels");
    if(paths > 60) label("more than 2^60 paths");
    if(big >= 2 && paths > 40) nontrivial();
}

const Property vp::property = {"C10", "operations, queries, collections and stored-diagram operations on layered diagrams of bounded width over dozens to hundreds of levels, with a CPU limit per case; non-trivial: more than 2^40 paths in a diagram and at least two steps on operands with more than 2^25 paths", run, 2400, 600, 30000, 8000, 10};
