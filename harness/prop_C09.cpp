// C09: queries. Oracle: graph searches through low() and high(), support and solution count of the reference package.
#include "model.h"
#include "bdd_node_depth.h"
#include <deque>
using namespace vp;

struct State { size_t nodes, vars; std::vector<std::pair<void*, size_t>> refs; };

static State observe(World& w)
{
    State st{w.mgr->nr_nodes(), w.mgr->nr_variables(), {}};
    for(Item& i : w.pool) if(!i.h.is_terminal()) st.refs.push_back({i.h.address(), i.h.reference_count()});
    return st;
}

static void no_trace(World& w, const State& a, const char* what)
{
    State b = observe(w);
    VP_CHECK(a.nodes == b.nodes, "%s: node count of the manager went from %zu to %zu", what, a.nodes, b.nodes);
    VP_CHECK(a.vars == b.vars, "%s: number of variables changed", what);
    VP_CHECK(a.refs == b.refs, "%s: reference counts of held diagrams changed", what);
    for(Item& i : w.pool) for(node_ref& x : reachable({i.h})) VP_CHECK(!x.marked(), "%s: a node is left marked", what);
}

static void check_postorder(RB& rb, node_ref h, F f)
{
    std::vector<node_ref> p = h.nodes_postorder();
    VP_CHECK(p.size() == rb.size(f), "postorder lists %zu nodes, %zu are reachable", p.size(), rb.size(f));
    std::unordered_set<void*> seen;
    for(node_ref& x : p) {
        VP_CHECK(!x.is_terminal(), "postorder lists a terminal");
        for(node_ref c : {x.low(), x.high()}) if(!c.is_terminal()) VP_CHECK(seen.count(c.address()) == 1, "postorder lists a node before its child");
        VP_CHECK(seen.insert(x.address()).second, "postorder lists a node twice");
    }
    for(node_ref& x : reachable({h})) VP_CHECK(seen.count(x.address()) == 1, "postorder misses a reachable node");
    if(!p.empty()) VP_CHECK(p.back() == h, "postorder does not end with the root");
}

static void check_bfs(RB& rb, node_ref h, F f)
{
    std::vector<node_ref> p = h.nodes_bfs();
    VP_CHECK(p.size() == rb.size(f), "breadth-first order lists %zu nodes, %zu are reachable", p.size(), rb.size(f));
    std::unordered_map<void*, size_t> dist;
    std::deque<node_ref> q;
    if(!h.is_terminal()) { dist[h.address()] = 0; q.push_back(h); }
    while(!q.empty()) { node_ref x = q.front(); q.pop_front(); size_t d = dist[x.address()]; for(node_ref c : {x.low(), x.high()}) if(!c.is_terminal() && dist.emplace(c.address(), d + 1).second) q.push_back(c); }
    std::unordered_set<void*> seen;
    size_t last = 0;
    for(node_ref& x : p) {
        VP_CHECK(!x.is_terminal() && dist.count(x.address()) == 1, "breadth-first order lists a terminal or an unreachable node");
        VP_CHECK(seen.insert(x.address()).second, "breadth-first order lists a node twice");
        VP_CHECK(dist[x.address()] >= last, "breadth-first order lists a node at distance %zu after one at distance %zu", dist[x.address()], last);
        last = dist[x.address()];
    }
    if(!p.empty()) VP_CHECK(p.front() == h, "breadth-first order does not start with the root");
}

static void check_depth(World& w, Src& s, node_ref h, F f)
{
    BDD::bdd_node_depth d;
    if(s.coin()) { d.add_botsink(w.mgr->botsink().address()); d.add_topsink(w.mgr->topsink().address()); }
    else { d.add_topsink(w.mgr->topsink().address()); d.add_botsink(w.mgr->botsink().address()); }
    // several diagrams in one helper
    std::vector<Item> items{{h, f}};
    for(unsigned k = s.draw(2); k > 0; --k) items.push_back(w.any_operand());
    std::unordered_set<void*> added;
    std::unordered_map<void*, size_t> len;
    std::function<size_t(node_ref)> longest = [&](node_ref x) -> size_t {
        if(x.is_terminal()) return 0;
        auto it = len.find(x.address());
        if(it != len.end()) return it->second;
        size_t r = 1 + std::max(longest(x.low()), longest(x.high()));
        len[x.address()] = r;
        return r;
    };
    for(Item& i : items) {
        size_t last = 0;
        for(node_ref& x : i.h.nodes_postorder()) {
            if(!added.insert(x.address()).second) { last = longest(x); continue; }
            size_t got = d.add_node(x.address());
            VP_CHECK(got == longest(x), "depth helper reports %zu, the longest path has length %zu", got, longest(x));
            last = got;
        }
        VP_CHECK(last == w.rb.depth(i.f), "depth helper reports %zu for the root, the longest path has length %zu", last, w.rb.depth(i.f));
    }
    label("depth helper");
}

// marks of the user: for a whole diagram or node by node, on one or two overlapping diagrams
static void check_marks(World& w, Src& s, node_ref h, F)
{
    std::vector<node_ref> roots{h};
    if(s.coin()) roots.push_back(w.any_operand().h);
    if(s.coin()) std::reverse(roots.begin(), roots.end());
    std::unordered_set<void*> want;
    std::vector<node_ref> all = reachable({h});
    for(Item& i : w.pool) { if(all.size() > 20000) break; std::vector<node_ref> more = reachable({i.h}); all.insert(all.end(), more.begin(), more.end()); }
    for(node_ref& r : roots) for(node_ref& x : reachable({r})) all.push_back(x);
    auto compare = [&](const char* what) { for(node_ref& x : all) VP_CHECK(x.marked() == (want.count(x.address()) == 1), "%s: a node is %smarked", what, x.marked() ? "" : "not "); };
    for(node_ref& r : roots) {
        if(s.coin()) r.address()->mark();
        else {
            std::function<void(node_ref)> go = [&](node_ref x) { if(x.is_terminal() || x.marked()) return; x.mark(); go(x.low()); go(x.high()); };
            go(r);
        }
        for(node_ref& x : reachable({r})) if(!x.is_terminal()) want.insert(x.address());
        compare("after marking a diagram");
    }
    if(!h.is_terminal()) { // one node by itself
        node_ref x = h;
        x.unmark(); want.erase(x.address()); compare("after unmarking one node");
        x.mark(); want.insert(x.address()); compare("after marking one node");
    }
    if(s.coin()) std::reverse(roots.begin(), roots.end());
    for(node_ref& r : roots) {
        if(s.coin()) r.unmark_rec(); else r.address()->unmark();
        for(node_ref& x : reachable({r})) want.erase(x.address());
        compare("after unmarking a diagram");
    }
    label("marks set and cleared");
}

static void query(World& w, Src& s, const Item& a, int k)
{
    node_ref h = a.h;
    switch(k) {
        case 0: check_postorder(w.rb, h, a.f); break;
        case 1: check_bfs(w.rb, h, a.f); break;
        case 2: VP_CHECK(h.nr_nodes() == w.rb.size(a.f), "nr_nodes is %zu, %zu are reachable", h.nr_nodes(), w.rb.size(a.f)); break;
        case 3: VP_CHECK(h.variables() == w.rb.support(a.f), "variables() is not the sorted support"); break;
        case 4: { bool want = w.rb.solutions(a.f) == 1; VP_CHECK(h.exactly_one_solution() == want, "exactly_one_solution is %d, the function has %lu satisfying assignments of its support", !want, (unsigned long)w.rb.solutions(a.f)); if(want) label("exactly one solution"); break; }
        case 5: check_depth(w, s, h, a.f); break;
        case 6: { // evaluation from several containers
            size_t n = w.vars.back() + 1 + s.draw(2);
            n = std::max(n, w.mgr->nr_variables());
            std::vector<char> x = sample_assignment(s.draw(100), n);
            bool want = w.rb.eval(a.f, [&](uint64_t v) { return x[v]; });
            std::vector<bool> vb(x.begin(), x.end()); std::deque<int> dq(x.begin(), x.end());
            VP_CHECK(h.evaluate(x.begin(), x.end()) == want, "evaluate from a vector<char> is wrong");
            VP_CHECK(h.evaluate(vb.begin(), vb.end()) == want, "evaluate from a vector<bool> is wrong");
            VP_CHECK(h.evaluate(dq.begin(), dq.end()) == want && h.evaluate(x.data(), x.data() + x.size()) == want, "evaluate from a deque or array is wrong");
            break;
        }
        case 8: check_marks(w, s, h, a.f); break;
        default: {
            VP_CHECK(h.find_bdd_mgr() == w.mgr.get(), "find_bdd_mgr returns another manager");
            VP_CHECK(h.botsink() == w.mgr->botsink() && h.topsink() == w.mgr->topsink(), "terminals reached from a handle differ from the manager's");
            VP_CHECK(h.is_terminal() == (a.f < 2) && h.is_topsink() == (a.f == 1) && h.is_botsink() == (a.f == 0), "terminal tests are wrong");
            if(a.f >= 2) VP_CHECK(h.variable() == w.rb.var(a.f), "variable() is %zu", h.variable());
        }
    }
}

// functions with exactly one solution, or nearly so
static Item cube(World& w, Src& s)
{
    node_ref h = w.mgr->topsink();
    F f = 1;
    for(size_t v : w.vars) {
        if(s.chance(1, 4)) continue;
        bool neg = s.coin();
        node_ref l = w.mgr->projection(v);
        if(neg) l = w.mgr->negate(l);
        h = w.mgr->and_rec(h, l);
        f = w.rb.conj(f, neg ? w.rb.neg(w.rb.variable(v)) : w.rb.variable(v));
    }
    if(s.chance(1, 4)) { Item o = w.any_operand(); h = w.mgr->or_rec(h, o.h); f = w.rb.disj(f, o.f); }
    return {h, f};
}

// a cube over up to 1200 variables of its own, sometimes with one node of two proper children or a diagram below it
static Item long_cube(World& w, Src& s)
{
    size_t n = s.pick({2, 3, 1}) == 0 ? s.range(20, 70) : s.coin() ? s.range(71, 300) : s.range(301, 1200), from = w.mgr->nr_variables(), odd = s.chance(1, 3) ? s.draw(n - 1) : n;
    w.mgr->projection(from + n - 1);
    node_ref h = w.mgr->topsink(), below = h;
    F f = 1, fbelow = 1;
    uint64_t seed = s.draw(1 << 20), mode = s.draw(3);
    VP_LOG("cube over %zu variables from x%zu%s", n, from, odd < n ? ", not quite" : "");
    for(size_t i = n; i-- > 0;) {
        bool neg = mode == 0 ? false : mode == 1 ? true : mix(seed + i) & 1;
        node_ref o = i == odd ? below : w.mgr->botsink();
        F fo = i == odd ? fbelow : 0;
        below = h; fbelow = f;
        if(o == h) { o = w.mgr->botsink(); fo = 0; }
        h = neg ? w.mgr->unique_find(from + i, h, o) : w.mgr->unique_find(from + i, o, h);
        f = neg ? w.rb.mk(from + i, f, fo) : w.rb.mk(from + i, fo, f);
    }
    label(n > 300 ? "cube over more than 300 variables" : n > 70 ? "cube over more than 70 variables" : "cube over 20 to 70 variables");
    return {h, f};
}

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 9, 30};
    World w(s, draw_variables(s, maxvars[profile]), false);
    w.s_check_operands = false;
    w.huge_one_in = 60;
    w.start();
    size_t steps = s.range(2, w.huge ? 8 : 25), queries = 0, large = 0;
    for(size_t i = 0; i < steps; ++i) {
        switch(s.pick({10, 3, 2, 2, 1, 1, 1, 2})) {
            case 0: {
                State st = observe(w);
                w.big_taken = false;
                Item a = s.chance(1, 8) ? w.constant(s.coin()) : w.any_operand();
                std::vector<std::vector<node_ref>> nested;
                for(unsigned n = s.range(1, 6); n > 0; --n) {
                    int k = s.draw(9);
                    VP_LOG("query %d on %s", k, w.rb.text(a.f).c_str());
                    query(w, s, a, k);
                    ++queries;
                    if(s.chance(1, 4)) { // queries on inner nodes while a node list is held
                        nested.push_back(s.coin() ? a.h.nodes_postorder() : a.h.nodes_bfs());
                        if(!nested.back().empty()) {
                            node_ref x = nested.back()[s.draw(nested.back().size() - 1)];
                            Reader rd(w.rb);
                            query(w, s, Item{x, rd(x)}, s.draw(8));
                            label("nested query");
                        }
                    }
                    if(s.chance(1, 3)) a = s.coin() ? w.sub(a) : w.any_operand();
                }
                nested.clear();
                a = Item{};
                no_trace(w, st, "queries");
                break;
            }
            case 1: w.op_binary(); break;
            case 2: w.op_dense(8); break;
            case 3: w.op_ite(); break;
            case 4: w.op_counting(); break;
            case 5: w.op_gc(); break;
            case 6: w.op_drop(); break;
            default: { Item c = hash_mode() <= HASH_SEEDED && !w.huge && s.chance(1, 25) ? long_cube(w, s) : cube(w, s); VP_LOG("cube"); w.result(c.h, c.f, "cube"); query(w, s, c, 4); query(w, s, c, s.draw(9)); ++queries; }
        }
        for(Item& it : w.pool) if(w.rb.size(it.f) >= 6) ++large;
    }
    // every query on everything held, twice and in another order
    State st = observe(w);
    for(int round = 0; round < 2; ++round) for(size_t j = 0; j < w.pool.size() && j < 12; ++j) for(int k = 0; k < 5; ++k) query(w, s, w.pool[round ? w.pool.size() - 1 - j : j], round ? 4 - k : k);
    for(int b = 0; b < 2; ++b) for(int k = 0; k < 10; ++k) query(w, s, w.constant(b), k);
    no_trace(w, st, "final queries");
    w.check_pool("at the end");
    if(queries >= 3 && large > 0) nontrivial();
}

const Property vp::property = {"C09", "queries (postorder, breadth-first order, counts, support, single solution, depth, evaluation) on held, inner and constant nodes between operations, nested and repeated; non-trivial: at least three queries in a history that holds a diagram of six or more nodes", run, 11250, 2400, 150000, 40000, 20};
