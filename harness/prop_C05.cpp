// C05: node identity while the manager grows. Oracle: a map from (variable, children) to the node handed out.
#include "model.h"
using namespace vp;
using BDD::node;

#if defined(__SANITIZE_ADDRESS__)
static const size_t SCALE = 4;
#else
static const size_t SCALE = 1;
#endif

struct Key { size_t v; node* l; node* h; bool operator==(const Key& o) const { return v == o.v && l == o.l && h == o.h; } };
struct KeyHash { size_t operator()(const Key& k) const { return mix(mix(k.v ^ (uint64_t)(uintptr_t)k.l) ^ (uint64_t)(uintptr_t)k.h); } };

struct Table { // model of everything the manager was asked to store; nothing is collected meanwhile
    bdd_mgr& m;
    std::unordered_map<Key, node*, KeyHash> map;
    std::unordered_set<node*> used;
    std::vector<Key> keys;
    std::vector<node*> base; // diagrams to be used as children, by construction valid
    explicit Table(bdd_mgr& m) : m(m) { used.insert(m.botsink().address()); used.insert(m.topsink().address()); }
    static size_t top(node* p) { return p->is_terminal() ? SIZE_MAX : p->index; }
    void expect(const Key& k, node* got)
    {
        compared();
        auto [it, fresh] = map.try_emplace(k, got);
        if(!fresh) { if(it->second != got) fail("variable %zu and the same children gave a second node (%zu nodes stored)", k.v, map.size()); return; }
        if(!used.insert(got).second) fail("a different variable and children gave a node already in use (%zu nodes stored)", map.size());
        if(got->index != k.v || got->lo != k.l || got->hi != k.h) fail("the node for variable %zu does not have the requested variable and children", k.v);
        keys.push_back(k);
    }
    node* find(size_t v, node* l, node* h)
    {
        node_ref r = m.unique_find(v, node_ref(l), node_ref(h));
        node* p = r.address();
        VP_CHECK(p != nullptr, "null node");
        if(l == h) { VP_CHECK(p == l, "equal children did not give the child"); return p; }
        expect({v, l, h}, p);
        if(m.nr_nodes() != map.size() + 2) fail("node count is %zu, %zu distinct nodes were made", m.nr_nodes(), map.size());
        return p;
    }
    void verify(size_t i)
    {
        const Key& k = keys[i];
        node* p = map.find(k)->second;
        compared();
        if(p->index != k.v || p->lo != k.l || p->hi != k.h) fail("node %zu of %zu changed its variable or children", i, keys.size());
        if(m.unique_find(k.v, node_ref(k.l), node_ref(k.h)).address() != p) fail("node %zu of %zu is not found again", i, keys.size());
    }
    void verify_all(size_t maximum, uint64_t seed)
    {
        if(keys.size() <= maximum) for(size_t i = 0; i < keys.size(); ++i) verify(i);
        else for(size_t i = 0; i < maximum; ++i) verify(mix(seed + i) % keys.size());
        VP_CHECK(m.nr_nodes() == map.size() + 2, "node count is %zu, %zu distinct nodes were made", m.nr_nodes(), map.size());
    }
};

// small tables, many variables, hostile hash keys
static void mixed(Src& s)
{
    draw_hash_mode(s);
    bdd_mgr m;
    Table t(m);
    size_t nv = s.range(2, 12);
    for(size_t i = 0; i < nv; ++i) m.add_variable();
    std::vector<node*> nodes{m.botsink().address(), m.topsink().address()};
    size_t rounds = s.range(1, 25), growths = 0, total = 0;
    for(size_t r = 0; r < rounds; ++r) {
        switch(s.pick({6, 2, 1, 2, 1})) {
            case 0: { // a burst of nodes on one variable
                size_t v = s.draw(m.nr_variables() - 1), n = s.range(1, 150);
                uint64_t seed = s.draw(1 << 20);
                std::vector<node*> cand;
                for(node* p : nodes) if(Table::top(p) > v) cand.push_back(p);
                for(size_t i = 0; i < n && total < 3000; ++i) {
                    node* l = cand[mix(seed + 2 * i) % cand.size()], *h = cand[mix(seed + 2 * i + 1) % cand.size()];
                    size_t before = t.map.size();
                    node* p = t.find(v, l, h);
                    if(t.map.size() > before) { ++total; if(nodes.size() < 400) nodes.push_back(p); else nodes[2 + mix(seed * 3 + i) % 398] = p; }
                }
                VP_LOG("burst of %zu on x%zu, %zu nodes now", n, v, t.map.size());
                if(n > 70) ++growths;
                break;
            }
            case 1: { // variables added in between
                size_t n = s.pick({3, 1}) == 0 ? s.range(1, 10) : s.range(100, 700);
                size_t before = m.nr_variables();
                if(s.coin()) for(size_t i = 0; i < n; ++i) VP_CHECK(m.add_variable() == before + i, "add_variable returned the wrong number");
                else { node* p = m.projection(before + n - 1).address(); t.expect({before + n - 1, m.botsink().address(), m.topsink().address()}, p); ++total; nodes.push_back(p); }
                VP_CHECK(m.nr_variables() == before + n, "%zu variables after adding %zu to %zu", m.nr_variables(), n, before);
                VP_LOG("%zu variables", m.nr_variables());
                label("variables added between");
                break;
            }
            case 2: t.verify_all(500, s.draw(1000)); break;
            case 3: { // projections
                size_t v = s.draw(m.nr_variables() - 1);
                bool neg = s.coin();
                node* p = (neg ? m.neg_projection(v) : m.projection(v)).address();
                node* b = m.botsink().address(), *tp = m.topsink().address();
                t.expect(neg ? Key{v, tp, b} : Key{v, b, tp}, p);
                nodes.push_back(p);
                break;
            }
            default: { // high variables
                size_t v = m.nr_variables() - 1 - s.draw(std::min<size_t>(m.nr_variables() - 1, 3));
                t.find(v, nodes[0], nodes[1]);
                break;
            }
        }
    }
    t.verify_all(4000, 1);
    if(total > 150) { nontrivial(); label("more than 150 nodes"); }
    if(t.map.size() > 1000) label("more than 1000 nodes");
    if(growths > 1) label("several bursts");
}

// functions of lower variables to build pairs from
static void make_base(Table& t, size_t first_var, size_t count, uint64_t seed)
{
    bdd_mgr& m = t.m;
    t.base = {m.botsink().address(), m.topsink().address()};
    size_t v = first_var + 40;
    while(m.nr_variables() <= v) m.add_variable();
    for(size_t i = 0; t.base.size() < count; ++i) {
        size_t k = mix(seed + i) % 40;
        // children strictly below
        node* l = nullptr, *h = nullptr;
        for(unsigned j = 0; j < 50; ++j) { l = t.base[mix(seed + 7 * i + j) % t.base.size()]; if(Table::top(l) > first_var + k) break; l = nullptr; }
        for(unsigned j = 0; j < 50; ++j) { h = t.base[mix(seed + 11 * i + 101 + j) % t.base.size()]; if(Table::top(h) > first_var + k && h != l) break; h = nullptr; }
        if(l == nullptr || h == nullptr || l == h) continue;
        size_t before = t.map.size();
        node* p = t.find(first_var + k, l, h);
        if(t.map.size() > before) t.base.push_back(p);
    }
}

// very many nodes on one or several variables
static void big(Src& s)
{
    bool nat = s.coin();
    set_hash_mode(nat ? HASH_NATURAL : HASH_SEEDED, s.draw(1000));
    dirty_heap(s);
    bdd_mgr m;
    Table t(m);
    size_t tops = s.range(1, 4); // variables that get many nodes
    for(size_t i = 0; i < tops; ++i) m.add_variable();
    size_t base = s.range(40, 620);
    make_base(t, tops, base, s.draw(1 << 20));
    static const size_t size_limits[] = {2000, 20000, 80000, 360000};
    size_t lim = s.range(500, size_limits[s.pick({6, 4, 2, 1})] / SCALE);
    uint64_t seed = s.draw(1 << 20);
    std::vector<size_t> per(tops, 0);
    size_t every = s.range(lim / 5 + 1, lim), made = 0;
    for(size_t i = 0; i < lim; ++i) {
        size_t v = mix(seed + 3 * i) % tops;
        node* l = t.base[mix(seed + 3 * i + 1) % base], *h = t.base[mix(seed + 3 * i + 2) % base];
        if(l == h) continue;
        size_t before = t.map.size();
        t.find(v, l, h);
        if(t.map.size() > before) { ++per[v]; ++made; }
        if(i % every == every - 1) { t.verify_all(2000, i); if(s.coin()) { m.add_variable(); label("variables added between"); } }
    }
    VP_LOG("%zu base diagrams, %zu further nodes on %zu variables, at most %zu on one", base, made, tops, *std::max_element(per.begin(), per.end()));
    t.verify_all(lim > 50000 ? 50000 : lim * 2, 5);
    size_t mx = *std::max_element(per.begin(), per.end());
    if(mx > 512) { nontrivial(); label("more than 512 nodes on one variable"); }
    if(mx > 4096) label("more than 4096 nodes on one variable");
    if(mx > 32768) label("more than 32768 nodes on one variable");
    if(mx > 131072) label("more than 131072 nodes on one variable");
    if(made > 4096) label("several pages of nodes");
    if(s.coin()) { // nothing is held: everything can be collected, and the manager grows again
        m.collect_garbage();
        VP_CHECK(m.nr_nodes() == 2, "%zu nodes left although no handle exists", m.nr_nodes());
        Table t2(m);
        make_base(t2, tops, std::min<size_t>(base, 150), seed + 1);
        for(size_t i = 0; i < 3000; ++i) {
            node* l = t2.base[mix(seed + 2 * i) % t2.base.size()], *h = t2.base[mix(seed + 2 * i + 1) % t2.base.size()];
            if(l != h) t2.find(0, l, h);
        }
        t2.verify_all(3000, 2);
        label("collected and grown again");
    }
}

// very many variables
static void wide(Src& s)
{
    draw_hash_mode(s);
    bdd_mgr m;
    Table t(m);
    size_t n;
    switch(s.pick({20, 4, 2})) {
        case 0: n = s.range(300, 4000 / SCALE); break;
        case 1: n = s.range(300, 36000 / SCALE); break;
        default: n = SCALE == 1 ? s.coin() ? s.range(66000, 140000) : s.range(140000, 280000) : 36000 / SCALE;
    }
    if(SCALE == 1 && s.chance(1, 60)) n = s.range(1050000, 1200000);
    size_t stride = n > 1000000 ? 20000 : n > 36000 ? 3000 : 300;
    uint64_t seed = s.draw(1 << 20);
    std::vector<node_ref> held;
    std::vector<Key> hk;
    node* b = m.botsink().address(), *tp = m.topsink().address();
    while(m.nr_variables() < n) {
        size_t step = 1 + mix(seed + m.nr_variables()) % stride, before = m.nr_variables();
        if(mix(seed * 3 + before) % 3 == 0) { node_ref h = m.projection(before + step - 1); t.expect({before + step - 1, b, tp}, h.address()); held.push_back(h); }
        else for(size_t i = 0; i < step; ++i) m.add_variable();
        VP_CHECK(m.nr_variables() == before + step, "%zu variables instead of %zu", m.nr_variables(), before + step);
        size_t v = mix(seed + 5 * before) % m.nr_variables();
        t.find(v, tp, b);
        t.find(v, b, tp);
    }
    // a chain through some of them
    node* p = tp;
    for(size_t v = m.nr_variables(); v-- > 0;) if(mix(seed + v) % 5 == 0) { p = t.find(v, b, p); if(mix(seed + v) % 15 == 0) held.push_back(node_ref(p)); }
    t.verify_all(3000, seed);
    VP_LOG("%zu variables, %zu nodes", m.nr_variables(), t.map.size());
    label("many variables");
    if(m.nr_variables() > 1048576) label("more than 1048576 variables"); else if(m.nr_variables() > 131072) label("more than 131072 variables"); else if(m.nr_variables() > 65536) label("more than 65536 variables"); else if(m.nr_variables() > 16384) label("more than 16384 variables");
    nontrivial();
}

// several variables whose tables pass through all sizes one after the other, with collections between.
// Every node is remembered under its pair of children; nodes with the requested fields are distinct if the requests are.
static void giant(Src& s)
{
    set_hash_mode(s.coin() ? HASH_NATURAL : HASH_SEEDED, s.draw(1000));
    dirty_heap(s);
    bdd_mgr m;
    Table t(m);
    size_t tops = s.range(2, 4);
    for(size_t i = 0; i < tops; ++i) m.add_variable();
    size_t base = s.range(150, 760);
    make_base(t, tops, base, s.draw(1 << 20));
    std::vector<node_ref> hold(t.base.begin(), t.base.end()); // all base nodes are in t.base
    size_t base_nodes = m.nr_nodes(), total = base_nodes;
    std::vector<std::vector<node*>> made(tops); // by number of the pair
    size_t pairs = base * (base - 1);
    auto pair = [&](size_t k) { size_t i = k / (base - 1), j = (i + 1 + (k % (base - 1))) % base; return std::make_pair(t.base[i], t.base[j]); };
    auto check = [&](size_t v, size_t k) {
        auto [l, h] = pair(k);
        node* p = made[v][k];
        compared();
        if(p->index != v || p->lo != l || p->hi != h) fail("node %zu of %zu on variable %zu changed its variable or children", k, made[v].size(), v);
        if(m.unique_find(v, node_ref(l), node_ref(h)).address() != p) fail("node %zu of %zu on variable %zu is not found again", k, made[v].size(), v);
    };
    auto check_some = [&](size_t n, uint64_t seed) {
        for(size_t v = 0; v < tops; ++v) if(!made[v].empty()) {
            if(made[v].size() <= n) for(size_t k = 0; k < made[v].size(); ++k) check(v, k);
            else for(size_t k = 0; k < n; ++k) check(v, mix(seed + k) % made[v].size());
        }
        VP_CHECK(m.nr_nodes() == total, "node count is %zu, %zu distinct nodes were made", m.nr_nodes(), total);
    };
    size_t phases = s.range(2, 6), mx = 0, large = 0;
    for(size_t ph = 0; ph < phases; ++ph) {
        if(ph > 0 && s.chance(1, 6)) {
            VP_LOG("collection of %zu nodes", total - base_nodes);
            m.collect_garbage();
            for(auto& x : made) x.clear();
            total = base_nodes;
            VP_CHECK(m.nr_nodes() == base_nodes, "%zu nodes after a collection, %zu are held", m.nr_nodes(), base_nodes);
            label("collected and grown again");
        }
        size_t v = s.draw(tops - 1), lg = s.range(8, 19), n = (size_t(1) << lg) + s.draw((size_t(1) << lg) / 2);
        n = std::min(std::min(n / SCALE, pairs), size_t(500000));
        VP_LOG("variable %zu from %zu to %zu nodes", v, made[v].size(), n);
        bool both = s.coin();
        size_t v2 = (v + 1) % tops;
        while(made[v].size() < n) {
            for(size_t x : {v, v2}) {
                if(x == v2 && (!both || made[x].size() >= n)) continue;
                auto [l, h] = pair(made[x].size());
                node* p = m.unique_find(x, node_ref(l), node_ref(h)).address();
                if(p == nullptr || p->index != x || p->lo != l || p->hi != h) fail("the node requested for variable %zu does not have the requested variable and children", x);
                made[x].push_back(p);
                ++total;
            }
        }
        if(m.nr_nodes() != total) fail("node count is %zu, %zu distinct nodes were made", m.nr_nodes(), total);
        check_some(2000, ph);
        if(made[v].size() > 131072 / SCALE) ++large;
        mx = std::max(mx, made[v].size());
    }
    check_some(SIZE_MAX, 0);
    if(mx > 512) nontrivial();
    if(mx > 131072) label("more than 131072 nodes on one variable");
    if(mx > 262144) label("more than 262144 nodes on one variable");
    if(large > 1) label("several tables or phases beyond 131072 nodes");
}

// until the table of one variable is full
static void capacity(Src& s)
{
    set_hash_mode(HASH_SEEDED, s.draw(1000));
    auto mp = std::make_unique<bdd_mgr>();
    bdd_mgr& m = *mp;
    Table t(m);
    m.add_variable(); m.add_variable();
    size_t base = s.range(1060, 1100);
    make_base(t, 2, base, s.draw(1 << 20));
    // something to keep, on the same variable and elsewhere
    RB rb;
    Reader rd(rb);
    size_t filled = 0, stride = 1 + 2 * s.draw(50);
    while(std::gcd(stride, base) != 1) ++stride;
    Key refused{0, nullptr, nullptr};
    t.map.reserve(1200000); t.used.reserve(1200000); t.keys.reserve(1200000);
    bool threw = false;
    for(size_t i = 0; i < base && !threw; ++i)
        for(size_t j = 0; j < base && !threw; ++j) {
            if(i == j) continue;
            node* l = t.base[i], *h = t.base[(j * stride) % base];
            if(l == h) continue;
            if(t.map.count({1, l, h})) continue;
            size_t before = m.nr_nodes();
            try { t.find(1, l, h); ++filled; }
            catch(const std::exception&) { threw = true; refused = {1, l, h}; VP_CHECK(m.nr_nodes() == before, "a refused node changed the node count from %zu to %zu", before, m.nr_nodes()); }
        }
    VP_LOG("%zu nodes on one variable, then %s", filled, threw ? "exception" : "no exception");
    label("filled one variable");
    if(!threw) { label("capacity not reached"); t.verify_all(20000, 3); return; }
    nontrivial();
    label("capacity exhausted");
    // every other request of this kind fails too, existing nodes are found
    bool again = false;
    try { m.unique_find(1, node_ref(refused.l), node_ref(refused.h)); } catch(const std::exception&) { again = true; }
    VP_CHECK(again, "a request refused for lack of capacity succeeded without anything being freed");
    t.verify_all(30000, 7);
    // other variables work, through operations as well
    node_ref x = m.projection(0), y = m.projection(5);
    t.expect({0, m.botsink().address(), m.topsink().address()}, x.address());
    { auto it = t.map.find({5, m.botsink().address(), m.topsink().address()}); if(it != t.map.end()) VP_CHECK(it->second == y.address(), "projection of another variable changed"); }
    node_ref z = m.and_rec(x, y);
    check_denotes(rb, z, rb.conj(rb.variable(0), rb.variable(5)), "conjunction after an exhausted table");
    node_ref keep[3];
    F fk[3];
    for(int i = 0; i < 3; ++i) { keep[i] = node_ref(t.map.find(t.keys[mix(i + stride) % t.keys.size()])->second); fk[i] = Reader(rb)(keep[i]); }
    check_shape(std::vector<node_ref>(keep, keep + 3), "held diagrams");
    size_t choice = s.draw(2);
    if(choice > 0) {
        // dropping handles and collecting makes room
        node_ref l(refused.l), h(refused.h); // keep the children of the refused node
        m.collect_garbage();
        { std::vector<node_ref> roots{x, y, z, keep[0], keep[1], keep[2], l, h}; VP_CHECK(m.nr_nodes() == reachable(roots).size() + 2, "after a collection %zu nodes, %zu are reachable", m.nr_nodes(), reachable(roots).size()); }
        for(int i = 0; i < 3; ++i) check_denotes(rb, keep[i], fk[i], "diagram held across exhaustion and collection");
        node_ref r = m.unique_find(refused.v, l, h);
        VP_CHECK(r.variable() == refused.v && r.low() == l && r.high() == h, "node after making room is wrong");
        VP_CHECK(m.unique_find(refused.v, l, h) == r, "node after making room is not found again");
        label("room made by a collection");
    }
    { node_ref t0 = keep[0]; for(auto& k : keep) k = node_ref(); x = y = z = node_ref(); }
    mp.reset(); // must not fail
}

static void run(Src& s)
{
    static const bool sanitized = SCALE > 1;
    size_t k = sanitized ? s.pick({60, 24, 12, 0, 1}) : s.pick({140, 55, 20, 1, 8});
    static const char* names[] = {"small tables", "big tables", "many variables", "capacity", "several large tables"};
    label(names[k]);
    VP_LOG("%s", names[k]);
    switch(k) { case 0: mixed(s); break; case 1: big(s); break; case 2: wide(s); break; case 3: capacity(s); break; default: giant(s); }
}

const Property vp::property = {"C05", "nodes requested by variable and children: bursts on few variables under hostile hash keys, up to hundreds of thousands of nodes on one variable, thousands of variables, tables of several variables passing through all sizes with collections between, and filling one variable's table completely; every request is compared with a map of what was handed out; non-trivial: more than 150 nodes in one small-table history, or more than 512 nodes on one variable, or thousands of variables, or exhausted capacity", run, 1300, 600, 20000, 3000, 120};
