// C17: building an entry node by node and walking entries. Oracle: the drawn diagram itself (its function in the
// reference package), and the instructions of the entry for walks.
#include "colworld.h"
using namespace vp;
using BDD::bdd_collection_node; using BDD::bdd_collection_entry;

typedef std::unordered_map<bdd_collection_node, size_t> Numbers;

// walk an entry by its arcs and in children-first order
static void walk(ColWorld& w, size_t nr, F f, const char* what, std::vector<bdd_collection_node>* keep = nullptr, std::vector<std::array<size_t, 3>>* facts = nullptr)
{
    RB& rb = w.rb;
    size_t n = rb.size(f);
    Numbers number; // in order of discovery by arcs
    std::vector<bdd_collection_node> order;
    bdd_collection_node root = w.col[nr].root_node();
    std::vector<bdd_collection_node> st{root};
    size_t terminals = 0;
    while(!st.empty()) {
        bdd_collection_node x = st.back(); st.pop_back();
        if(!number.emplace(x, order.size()).second) continue;
        order.push_back(x);
        VP_CHECK(order.size() <= n + 2, "%s: more than %zu nodes reached in entry %zu", what, n + 2, nr);
        VP_CHECK(x.is_terminal() == (x.is_botsink() || x.is_topsink()), "%s: terminal tests disagree in entry %zu", what, nr);
        VP_CHECK(!(x.is_botsink() && x.is_topsink()), "%s: a node of entry %zu is both terminals", what, nr);
        if(x.is_terminal()) { ++terminals; VP_CHECK(x == (x.is_topsink() ? w.col[nr].topsink() : w.col[nr].botsink()), "%s: terminal reached in entry %zu differs from the entry's terminal", what, nr); continue; }
        VP_CHECK(x.lo() == x.low() && x.hi() == x.high() && x.lo() != x.hi(), "%s: arcs of a node of entry %zu", what, nr);
        st.push_back(x.lo()); st.push_back(x.hi());
    }
    VP_CHECK(order.size() - terminals == n, "%s: %zu decision nodes reached in entry %zu, expected %zu", what, order.size() - terminals, nr, n);
    // function by arcs
    std::unordered_map<bdd_collection_node, F> val;
    std::function<F(bdd_collection_node)> fun = [&](bdd_collection_node x) -> F {
        if(x.is_botsink()) return 0;
        if(x.is_topsink()) return 1;
        auto it = val.find(x);
        if(it != val.end()) return it->second;
        F l = fun(x.lo()), u = fun(x.hi());
        F r = rb.ite(rb.variable(x.variable()), u, l);
        val.emplace(x, r);
        return r;
    };
    F got = fun(root);
    VP_CHECK(got == f, "%s: walking entry %zu by its arcs gives %s, expected %s", what, nr, rb.text(got, 12).c_str(), rb.text(f, 12).c_str());
    // by position
    bdd_collection_entry e = w.col[nr];
    VP_CHECK(e[0] == root, "%s: the first node of entry %zu is not the root", what, nr);
    VP_CHECK(e.nr_nodes() == n + 2, "%s: entry %zu has %zu nodes, expected %zu", what, nr, e.nr_nodes(), n + 2);
    size_t inner = 0;
    for(size_t i = 0; i < n + 2; ++i) { bdd_collection_node x = e[i]; if(!x.is_terminal()) { ++inner; VP_CHECK(number.count(x), "%s: node %zu of entry %zu is not reached from the root", what, i, nr); } }
    VP_CHECK(inner == n, "%s: %zu decision nodes by position in entry %zu, expected %zu", what, inner, nr, n);
    VP_CHECK(e.botsink().is_botsink() && e.topsink().is_topsink() && e.botsink() != e.topsink(), "%s: terminals of entry %zu", what, nr);
    if(n > 0) { // children first
        std::unordered_map<bdd_collection_node, bool> seen;
        bdd_collection_node x = e.first_node_postorder();
        for(size_t k = 1;; ++k) {
            VP_CHECK(k <= n, "%s: children-first order of entry %zu does not reach the root within %zu nodes", what, nr, n);
            VP_CHECK(!x.is_terminal(), "%s: children-first order of entry %zu visits a terminal", what, nr);
            for(const bdd_collection_node& c : {x.lo(), x.hi()}) VP_CHECK(c.is_terminal() || seen.count(c), "%s: children-first order of entry %zu visits a node before its child", what, nr);
            VP_CHECK(number.count(x) && seen.emplace(x, true).second, "%s: children-first order of entry %zu visits a node twice or one that is not reached", what, nr);
            if(x == root) { VP_CHECK(k == n, "%s: children-first order of entry %zu visits %zu of %zu nodes", what, nr, k, n); break; }
            bdd_collection_node y = x.next_postorder();
            if(k % 2) x = y; else { bdd_collection_node z(y); x = z; }
        }
    } else VP_CHECK(root.is_topsink() == (f == 1) && root.is_botsink() == (f == 0), "%s: root of constant entry %zu", what, nr);
    // one wrapper assigned again and again down random paths, through both terminals
    {
        bdd_collection_node x = w.col[nr].root_node(), last = x;
        for(uint64_t k = 0; k < 6; ++k) {
            x = root;
            VP_CHECK(x == root, "%s: a wrapper assigned the root of entry %zu is not the root", what, nr);
            F g = f;
            for(uint64_t j = 0; g >= 2; ++j) {
                VP_CHECK(!x.is_terminal() && x.variable() == rb.var(g), "%s: a wrapper assigned down a path of entry %zu is not on the node reached", what, nr);
                bool b = mix(k * 1000 + j + nr) & 1;
                if(j % 3 == 2) { last = b ? x.high() : x.low(); x = last; }
                else x = b ? x.hi() : x.lo();
                if(j % 4 == 1) x = x;
                g = b ? rb.hi(g) : rb.lo(g);
            }
            VP_CHECK(x.is_topsink() == (g == 1) && x.is_botsink() == (g == 0) && x.is_terminal(), "%s: a wrapper assigned down a path of entry %zu ends in the wrong terminal", what, nr);
            last = x;
            VP_CHECK(last == x && std::hash<bdd_collection_node>()(last) == std::hash<bdd_collection_node>()(x), "%s: an assigned wrapper of entry %zu differs from the original", what, nr);
        }
    }
    if(keep) for(auto& x : order) {
        keep->push_back(x);
        if(x.is_terminal()) facts->push_back({SIZE_MAX, (size_t)x.is_topsink(), nr});
        else facts->push_back({x.variable(), val[x.lo()] + (x.lo().is_topsink() ? 1 : 0), nr});
    }
    label(n == 0 ? "walked a constant" : n > 30 ? "walked an entry above 30 nodes" : "walked an entry");
}

struct Drawn { size_t var; int lo, hi; }; // arcs: index of a node, -1 false, -2 true

static F drawn_function(RB& rb, const std::vector<Drawn>& d)
{
    std::vector<F> v(d.size());
    auto val = [&](int a) { return a == -1 ? 0 : a == -2 ? 1 : v[a]; };
    for(size_t i = d.size(); i-- > 0;) v[i] = rb.ite(rb.variable(d[i].var), val(d[i].hi), val(d[i].lo));
    return v[0];
}

// nodes of f, parents before children, otherwise in random order
static std::vector<Drawn> draw(Src& s, RB& rb, F f)
{
    std::unordered_map<F, size_t> open; // parents not yet placed
    for(F x : rb.reach(f)) for(F c : {rb.lo(x), rb.hi(x)}) if(c >= 2) ++open[c];
    std::vector<F> ready{f}, order;
    std::unordered_map<F, int> pos;
    bool shuffle = s.coin();
    while(!ready.empty()) {
        size_t i = shuffle ? s.draw(ready.size() - 1) : 0;
        F x = ready[i];
        ready.erase(ready.begin() + i);
        pos[x] = order.size();
        order.push_back(x);
        for(F c : {rb.lo(x), rb.hi(x)}) if(c >= 2 && --open[c] == 0) ready.push_back(c);
    }
    std::vector<Drawn> d;
    auto arc = [&](F c) { return c == 0 ? -1 : c == 1 ? -2 : pos[c]; };
    for(F x : order) d.push_back({(size_t)rb.var(x), arc(rb.lo(x)), arc(rb.hi(x))});
    return d;
}

static void set_arc(std::vector<bdd_collection_node>& nodes, size_t i, bool hi, int target)
{
    if(target == -1) hi ? nodes[i].set_hi_to_0_terminal() : nodes[i].set_lo_to_0_terminal();
    else if(target == -2) hi ? nodes[i].set_hi_to_1_terminal() : nodes[i].set_lo_to_1_terminal();
    else hi ? nodes[i].set_hi_arc(nodes[target]) : nodes[i].set_lo_arc(nodes[target]);
}

static bool op_build(ColWorld& w, Src& s, const std::vector<Drawn>& d, F f, const char* what, bool reduced, bool evaluate = true)
{
    auto snap = w.snapshot();
    size_t nr = w.col.new_bdd();
    VP_CHECK(nr == w.model.size(), "new_bdd returned %zu with %zu entries", nr, w.model.size());
    VP_CHECK(w.col.nr_bdds() == nr + 1, "new_bdd: %zu entries", w.col.nr_bdds());
    w.unchanged(snap, "new_bdd");
    std::vector<bdd_collection_node> nodes;
    std::vector<std::pair<size_t, bool>> todo, unset; // arcs whose nodes all exist; arcs of nodes not yet added
    size_t mode = s.pick({2, 3, 2});
    bool early = false, resets = false;
    size_t set = 0;
    auto do_one = [&]() {
        size_t k = s.draw(todo.size() - 1);
        auto [i, hi] = todo[k];
        todo.erase(todo.begin() + k);
        if(s.chance(1, 8)) { // set to something else first
            int other = s.pick({1, 1, 1}) == 0 ? -1 : s.coin() ? -2 : (int)s.draw(nodes.size() - 1);
            if(other < 0 || other > (int)i) { set_arc(nodes, i, hi, other); resets = true; }
        }
        set_arc(nodes, i, hi, hi ? d[i].hi : d[i].lo);
        ++set;
    };
    auto try_close = [&]() {
        bool threw = false;
        try { w.col.close_bdd(); } catch(const std::exception&) { threw = true; }
        VP_CHECK(threw, "%s: an entry with %zu of %zu arcs set was closed", what, set, 2 * nodes.size());
        VP_CHECK(w.col.nr_bdds() == nr + 1, "%s: %zu entries after a refused close", what, w.col.nr_bdds());
        w.unchanged(snap, "refused close");
        early = true;
    };
    std::vector<std::pair<size_t, bool>> later; // target not yet added
    for(size_t i = 0; i < d.size(); ++i) {
        nodes.push_back(w.col.add_bdd_node(d[i].var));
        VP_CHECK(nodes[i].variable() == d[i].var, "%s: new node has variable %zu, expected %zu", what, nodes[i].variable(), d[i].var);
        for(size_t k = later.size(); k-- > 0;) { auto [p, hi] = later[k]; if((hi ? d[p].hi : d[p].lo) == (int)i) { todo.push_back(later[k]); later.erase(later.begin() + k); } }
        for(bool hi : {false, true}) { int t = hi ? d[i].hi : d[i].lo; (t < 0 ? todo : later).push_back({i, hi}); }
        if(mode == 1) while(!todo.empty() && s.chance(2, 3)) do_one();
        if(mode == 2) while(!todo.empty()) do_one();
        if(s.chance(1, 40) && set < 2 * nodes.size()) try_close();
    }
    if(s.chance(1, 3)) w.unchanged(snap, "adding nodes");
    while(!todo.empty()) { if(s.chance(1, todo.size() == 1 ? 4 : 60)) try_close(); do_one(); }
    VP_CHECK(w.col.nr_bdds() == nr + 1, "%s: %zu entries", what, w.col.nr_bdds());
    w.col.close_bdd();
    VP_LOG("%s %s built with %zu nodes, arc order mode %zu%s%s", what, w.rb.text(f).c_str(), d.size(), mode, early ? ", close refused before" : "", resets ? ", arcs set again" : "");
    w.model.push_back(f);
    w.count(what);
    ++w.ops;
    VP_CHECK(w.col.nr_bdd_nodes(nr) == d.size() + 2, "%s: %zu nodes, drawn with %zu", what, w.col.nr_bdd_nodes(nr), d.size() + 2);
    if(reduced) check_entry(w.rb, w.col, nr, f, what);
    else { F got = entry_function(w.rb, w.col, nr, what); VP_CHECK(got == f, "%s: denotes %s, drawn %s", what, w.rb.text(got, 12).c_str(), w.rb.text(f, 12).c_str()); }
    if(evaluate) check_entry_evaluation(w.rb, w.col, nr, f, std::max(w.nr_vars(), w.vars.back() + 1), w.ops, 8, what);
    // the wrappers used for building are those of the entry
    for(size_t i = 0; i < d.size(); ++i) {
        VP_CHECK(nodes[i] == w.col[nr][i], "%s: node %zu is not at its position", what, i);
        for(bool hi : {false, true}) {
            int t = hi ? d[i].hi : d[i].lo;
            bdd_collection_node c = hi ? nodes[i].hi() : nodes[i].lo();
            VP_CHECK(t == -1 ? c.is_botsink() : t == -2 ? c.is_topsink() : c == nodes[t], "%s: %s arc of node %zu does not lead where it was drawn", what, hi ? "high" : "low", i);
        }
        VP_CHECK(nodes[i].variable() == d[i].var, "%s: variable of node %zu", what, i);
    }
    w.unchanged(snap, what);
    if(early) label("close refused, then completed");
    if(resets) label("arcs set again");
    label("built");
    if(d.size() > 20) label("built above 20 nodes");
    return true;
}

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 9, 20};
    ColWorld w(s, draw_variables(s, maxvars[profile]));
    w.max_nodes = 300;
    w.max_entries = 30;
    RB& rb = w.rb;
    w.begin(100, 80);
    size_t steps = s.range(2, 18), built = 0, walks = 0, large = 0;
    for(size_t i = 0; i < steps && !w.tired(); ++i) {
        switch(s.pick({8, w.model.empty() ? 0u : 6u, 3, 3, 2, 2, 2, 2, 2})) {
            case 0: {
                if(!w.room()) break;
                F f = w.fn(1);
                if(f < 2 || rb.size(f) > 150) break;
                op_build(w, s, draw(s, rb, f), f, "built entry", true);
                ++built;
                if(rb.size(f) >= 4) ++large;
                break;
            }
            case 1: { // walks, wrappers kept over queries
                std::vector<bdd_collection_node> keep;
                std::vector<std::array<size_t, 3>> facts;
                for(unsigned k = s.range(1, 3); k > 0; --k) { size_t e = w.some(); VP_LOG("walk entry %zu", e); if(s.coin()) walk(w, e, w.model[e], "walk", &keep, &facts); else walk(w, e, w.model[e], "walk"); ++walks; }
                std::vector<bdd_collection_node> copies(keep);
                w.check_queries(w.some(), "queries between");
                w.check_export(w.some(), *w.mgr, "export between");
                { std::ostringstream os; w.col.export_graphviz(w.some(), os); }
                for(size_t k = 0; k < keep.size(); ++k) for(auto* x : {&keep[k], &copies[k]}) {
                    if(facts[k][0] == SIZE_MAX) VP_CHECK(x->is_terminal() && x->is_topsink() == facts[k][1], "a kept terminal wrapper changed");
                    else { VP_CHECK(x->variable() == facts[k][0], "a kept wrapper changed its variable from %zu to %zu", facts[k][0], x->variable()); VP_CHECK(x->lo() == copies[k].lo() && x->hi() == copies[k].hi(), "a kept wrapper changed its arcs"); }
                }
                if(!keep.empty()) label("wrappers kept");
                break;
            }
            case 2: if(w.room()) { w.op_add(w.fn(1)); } break;
            case 3: if(w.room() && !w.model.empty()) w.op_and2(s.coin()); break;
            case 4: if(w.room() && !w.model.empty()) w.op_and_range(s.coin(), s.range(2, 6)); break;
            case 5: if(w.room() && !w.model.empty()) w.op_or_var(true); break;
            case 6: if(!w.model.empty()) w.op_rebase(); break;
            case 7: if(!w.model.empty()) w.op_remove(s.draw(5)); break;
            default: if(!w.model.empty()) w.check_export(w.some(), *w.mgr, "entry");
        }
    }
    w.check_all("at the end");
    for(size_t e = 0; e < w.model.size(); ++e) { walk(w, e, w.model[e], "at the end"); w.check_queries(e, "at the end"); }
    // last: arcs of closed entries set again, and a drawing that is not reduced
    if(!w.model.empty() && s.coin()) {
        size_t e = w.some();
        F f = w.model[e];
        if(f >= 2) {
            Content c = content(w.col, e);
            auto snap = w.snapshot();
            std::vector<Drawn> d;
            for(auto& in : c) if(in[0] != SIZE_MAX) d.push_back({in[0], c[in[1]][0] == SIZE_MAX ? -1 - (int)c[in[1]][1] : (int)in[1], c[in[2]][0] == SIZE_MAX ? -1 - (int)c[in[2]][1] : (int)in[2]});
            for(unsigned k = s.range(1, 4); k > 0; --k) {
                size_t i = s.draw(d.size() - 1);
                bool hi = s.coin();
                int t = s.coin() ? -1 : -2;
                if(s.coin() && i + 1 < d.size()) { size_t j = s.range(i + 1, d.size() - 1); if(d[j].var > d[i].var) t = j; }
                if(t == (hi ? d[i].lo : d[i].hi)) continue;
                bdd_collection_node x = w.col[e][i];
                bdd_collection_node y = w.col[e][t < 0 ? 0 : t];
                if(t == -1) hi ? x.set_hi_to_0_terminal() : x.set_lo_to_0_terminal();
                else if(t == -2) hi ? x.set_hi_to_1_terminal() : x.set_lo_to_1_terminal();
                else hi ? x.set_hi_arc(y) : x.set_lo_arc(y);
                (hi ? d[i].hi : d[i].lo) = t;
            }
            F g = drawn_function(rb, d);
            VP_LOG("arcs of closed entry %zu set again: %s becomes %s", e, rb.text(f).c_str(), rb.text(g).c_str());
            F got = entry_function(rb, w.col, e, "arcs set again");
            VP_CHECK(got == g, "entry %zu denotes %s after its arcs were set again, drawn %s", e, rb.text(got, 12).c_str(), rb.text(g, 12).c_str());
            check_entry_evaluation(rb, w.col, e, g, w.nr_vars(), 77, 8, "arcs set again");
            for(size_t j = 0; j < snap.size(); ++j) if(j != e) VP_CHECK(content(w.col, j) == snap[j], "setting arcs of entry %zu changed entry %zu", e, j);
            label("arcs of a closed entry");
        }
    }
    if(s.chance(1, 3)) {
        std::vector<Drawn> d;
        size_t n = s.range(1, 12);
        std::vector<size_t> vs;
        for(size_t i = 0; i < n; ++i) vs.push_back(w.vars[s.draw(w.vars.size() - 1)]);
        std::sort(vs.begin(), vs.end());
        for(size_t i = 0; i < n; ++i) {
            auto target = [&]() -> int { int t = s.coin() ? -1 : -2; if(s.chance(2, 3) && i + 1 < n) { size_t j = s.range(i + 1, n - 1); if(vs[j] > vs[i]) t = j; } return t; };
            int lo = target(), hi = target();
            if(lo == hi) hi = lo == -1 ? -2 : -1;
            d.push_back({vs[i], lo, hi});
        }
        op_build(w, s, d, drawn_function(rb, d), "drawing that need not be reduced", false);
        label("drawing that need not be reduced");
    }
    if(s.chance(1, 10)) { // variables far away, or many nodes
        static const size_t at[] = {65500, (size_t(1) << 31) - 3, 0xfffffff0u, size_t(1) << 32, size_t(1) << 41, size_t(1) << 62};
        bool far = s.coin();
        std::vector<size_t> vars(w.vars);
        while(vars.size() < 12) vars.push_back(vars.back() + 1 + s.draw(2));
        size_t want = !s.chance(1, 3) ? s.range(3, 60) : s.coin() ? s.range(61, 600) : s.range(601, 4000);
        F f = layered_function(rb, vars, want, s.draw(1 << 20));
        if(far) { size_t shift = at[s.draw(5)]; f = rb.rename(f, [&](uint64_t v) { return v + shift; }); label("built far away"); }
        if(f >= 2) {
            size_t nr = w.model.size(), n = rb.size(f);
            op_build(w, s, draw(s, rb, f), f, far ? "built far away" : "built of many nodes", true, !far);
            walk(w, nr, f, "built far away or of many nodes");
            VP_CHECK(w.col.variables(nr) == rb.support(f), "variables of an entry built node by node are not the support");
            auto per = rb.nodes_per_variable(f);
            for(size_t v : rb.support(f)) VP_CHECK(w.col.nr_bdd_nodes(nr, v) == per[v], "an entry built node by node has %zu nodes on variable %zu, expected %zu", w.col.nr_bdd_nodes(nr, v), v, per[v]);
            size_t r = w.col.bdd_and(nr, nr);
            check_entry(rb, w.col, r, f, "conjunction of an entry built node by node with itself");
            if(n > 1000) label("built above 1000 nodes"); else if(n > 100) label("built above 100 nodes");
        }
    }
    if(built > 0 && large > 0 && walks > 0) nontrivial();
}

const Property vp::property = {"C17", "histories that build entries node by node (random order of nodes and arcs, arcs set again, refused closes) between all other operations on a collection, and walk entries by arcs, position and children-first order, keeping node wrappers; non-trivial: a built entry of four or more nodes and a walk", run, 11250, 2200, 120000, 30000, 20};
