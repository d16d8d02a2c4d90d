// Reference models and generators shared by the property files. Nothing here looks at private state of the
// library: handles are inspected through node_ref, collections through their public queries.
#pragma once
#include "vp.h"
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <numeric>
#include <functional>
#include <limits>

// defined in driver.cpp; called by the hook in node_struct::init_new_node
extern std::size_t (*lbdd_verif_hash_key)(std::size_t);

namespace vp {

using BDD::bdd_mgr; using BDD::node_ref; using BDD::bdd_collection;
typedef uint32_t F; // a function: index of its root in the reference package; 0 = false, 1 = true

// ---------------------------------------------------------------- reference package
// Straightforward reduced ordered diagrams in one vector, nothing ever freed.
class RB {
public:
    struct N { uint64_t var; F lo, hi; };
    static constexpr uint64_t LEAF = UINT64_MAX;
    RB() { n.push_back({LEAF, 0, 0}); n.push_back({LEAF, 1, 1}); }
    static bool leaf(F f) { return f < 2; }
    uint64_t var(F f) const { return n[f].var; }
    F lo(F f) const { return n[f].lo; }
    F hi(F f) const { return n[f].hi; }
    F mk(uint64_t v, F l, F h)
    {
        if(l == h) return l;
        auto [it, fresh] = uniq.try_emplace(K{v, l, h}, (F)n.size());
        if(fresh) {
            if(n.size() > (1u << 25)) harness_error("reference package too large");
            n.push_back({v, l, h});
        }
        return it->second;
    }
    F variable(uint64_t v) { return mk(v, 0, 1); }
    F ite(F f, F g, F h)
    {
        if(f == 1) return g;
        if(f == 0) return h;
        if(g == h) return g;
        if(g == 1 && h == 0) return f;
        K key{((uint64_t)f << 32) | g, h, 0};
        auto it = memo.find(key);
        if(it != memo.end()) return it->second;
        uint64_t v = std::min(var(f), std::min(var(g), var(h)));
        F l = ite(v == var(f) ? lo(f) : f, v == var(g) ? lo(g) : g, v == var(h) ? lo(h) : h);
        F u = ite(v == var(f) ? hi(f) : f, v == var(g) ? hi(g) : g, v == var(h) ? hi(h) : h);
        F r = mk(v, l, u);
        if(memo.size() > (1u << 24)) memo.clear();
        memo.emplace(key, r);
        return r;
    }
    F neg(F f) { return ite(f, 0, 1); }
    F conj(F f, F g) { return ite(f, g, 0); }
    F disj(F f, F g) { return ite(f, 1, g); }
    F exor(F f, F g) { return ite(f, neg(g), g); }
    template<class A> bool eval(F f, A&& a) const { while(!leaf(f)) f = a(n[f].var) ? n[f].hi : n[f].lo; return f; }
    std::vector<F> reach(F f) const // decision nodes
    {
        std::vector<F> st{f}, out;
        std::unordered_set<F> seen;
        while(!st.empty()) {
            F x = st.back(); st.pop_back();
            if(leaf(x) || !seen.insert(x).second) continue;
            out.push_back(x);
            st.push_back(n[x].lo); st.push_back(n[x].hi);
        }
        return out;
    }
    size_t size(F f) const
    {
        if(leaf(f)) return 0;
        auto it = sizes.find(f);
        if(it == sizes.end()) it = sizes.emplace(f, reach(f).size()).first;
        return it->second;
    }
    std::vector<size_t> support(F f) const
    {
        std::set<size_t> s;
        for(F x : reach(f)) s.insert(n[x].var);
        return std::vector<size_t>(s.begin(), s.end());
    }
    size_t nodes_on(F f, uint64_t v) const { size_t k = 0; for(F x : reach(f)) k += n[x].var == v; return k; }
    std::unordered_map<uint64_t, size_t> nodes_per_variable(F f) const { std::unordered_map<uint64_t, size_t> k; for(F x : reach(f)) ++k[n[x].var]; return k; }
    template<class M> F rename(F f, M&& m) // order-preserving
    {
        std::unordered_map<F, F> done;
        std::function<F(F)> go = [&](F x) -> F {
            if(leaf(x)) return x;
            auto it = done.find(x);
            if(it != done.end()) return it->second;
            F l = go(n[x].lo), h = go(n[x].hi);
            F r = mk(m(n[x].var), l, h);
            done.emplace(x, r);
            return r;
        };
        return go(f);
    }
    // number of satisfying assignments of the support, saturating
    uint64_t solutions(F f) const
    {
        if(leaf(f)) return f;
        std::vector<size_t> s = support(f);
        std::unordered_map<uint64_t, size_t> pos;
        for(size_t i = 0; i < s.size(); ++i) pos[s[i]] = i;
        auto level = [&](F x) { return leaf(x) ? s.size() : pos[n[x].var]; };
        auto shl = [](uint64_t x, size_t k) -> uint64_t { if(x == 0) return 0; if(k >= 40 || x >= (1ull << 40)) return 1ull << 62; return std::min<uint64_t>(x << k, 1ull << 62); };
        std::unordered_map<F, uint64_t> c;
        std::function<uint64_t(F)> go = [&](F x) -> uint64_t {
            if(leaf(x)) return x;
            auto it = c.find(x);
            if(it != c.end()) return it->second;
            uint64_t r = std::min<uint64_t>(shl(go(n[x].lo), level(n[x].lo) - level(x) - 1) + shl(go(n[x].hi), level(n[x].hi) - level(x) - 1), 1ull << 62);
            c[x] = r;
            return r;
        };
        return go(f);
    }
    size_t depth(F f) const // longest path
    {
        std::unordered_map<F, size_t> d;
        std::function<size_t(F)> go = [&](F x) -> size_t {
            if(leaf(x)) return 0;
            auto it = d.find(x);
            if(it != d.end()) return it->second;
            size_t r = 1 + std::max(go(n[x].lo), go(n[x].hi));
            d[x] = r;
            return r;
        };
        return go(f);
    }
    std::string text(F f, size_t maxnodes = 6) const
    {
        if(f < 2) return f ? "1" : "0";
        std::string s = "f" + std::to_string(f) + "{" + std::to_string(size(f)) + " nodes";
        if(size(f) <= maxnodes) { s += ":"; for(F x : reach(f)) s += " " + std::to_string(x) + "=(x" + std::to_string(n[x].var) + "?" + std::to_string(n[x].hi) + ":" + std::to_string(n[x].lo) + ")"; }
        return s + "}";
    }
    size_t total() const { return n.size(); }
private:
    struct K { uint64_t a; F b, c; bool operator==(const K& o) const { return a == o.a && b == o.b && c == o.c; } };
    struct KH { size_t operator()(const K& k) const { return mix(mix(k.a) ^ (((uint64_t)k.b << 32) | k.c)); } };
    std::vector<N> n;
    std::unordered_map<K, F, KH> uniq, memo;
    mutable std::unordered_map<F, size_t> sizes;
};

// ---------------------------------------------------------------- reading the library's diagrams
// Function denoted by a handle, computed with if-then-else so that the order of variables does not matter.
class Reader {
public:
    explicit Reader(RB& rb) : rb(rb) {}
    F operator()(node_ref h)
    {
        if(h.address() == nullptr) fail("null handle where a diagram is expected");
        if(h.is_botsink()) return 0;
        if(h.is_topsink()) return 1;
        auto it = done.find(h.address());
        if(it != done.end()) return it->second;
        if(done.size() > 4000000) fail("diagram with more than 4000000 nodes or a cycle");
        if(++depth > 100000) fail("arcs of the diagram form a cycle");
        F l = (*this)(h.low()), u = (*this)(h.high());
        --depth;
        F r = rb.ite(rb.variable(h.variable()), u, l);
        done.emplace(h.address(), r);
        return r;
    }
    const std::unordered_map<void*, F>& seen() const { return done; }
private:
    RB& rb;
    std::unordered_map<void*, F> done;
    size_t depth = 0;
};

// Decision nodes reachable from h, each once.
inline std::vector<node_ref> reachable(const std::vector<node_ref>& roots)
{
    std::vector<node_ref> st = roots, out;
    std::unordered_set<void*> seen;
    while(!st.empty()) {
        node_ref x = st.back(); st.pop_back();
        if(x.address() == nullptr || x.is_terminal() || !seen.insert(x.address()).second) continue;
        out.push_back(x);
        st.push_back(x.low()); st.push_back(x.high());
    }
    return out;
}

// The diagram under h is ordered, reduced, without duplicates.
inline void check_shape(const std::vector<node_ref>& roots, const char* what)
{
    struct T { size_t v; void* l; void* u; bool operator<(const T& o) const { return v != o.v ? v < o.v : l != o.l ? l < o.l : u < o.u; } };
    std::set<T> triples;
    for(node_ref x : reachable(roots)) {
        node_ref l = x.low(), u = x.high();
        VP_CHECK(l != u, "%s: node on variable %zu has identical children", what, x.variable());
        for(node_ref* c : {&l, &u})
            if(!c->is_terminal()) VP_CHECK(c->variable() > x.variable(), "%s: arc from variable %zu to variable %zu is not increasing", what, x.variable(), c->variable());
        VP_CHECK(triples.insert({x.variable(), l.address(), u.address()}).second, "%s: two nodes with variable %zu and the same children", what, x.variable());
    }
}

inline void check_shape(node_ref h, const char* what) { check_shape(std::vector<node_ref>{h}, what); }

// h denotes f and is its canonical diagram
inline void check_denotes(RB& rb, node_ref h, F f, const char* what)
{
    Reader rd(rb);
    F got = rd(h);
    VP_CHECK(got == f, "%s: denotes %s, expected %s", what, rb.text(got, 12).c_str(), rb.text(f, 12).c_str());
    check_shape(h, what);
    VP_CHECK(rd.seen().size() == rb.size(f), "%s: %zu decision nodes, canonical diagram has %zu", what, rd.seen().size(), rb.size(f));
}

// ---------------------------------------------------------------- assignments
// A pseudo-random assignment: value of variable v in sample s
inline bool sample_bit(uint64_t s, uint64_t v) { return (mix(s * 0x51ed27f1 + 11) ^ mix(v * 0x2545f491 + s + 5)) & 1; }
inline std::vector<char> sample_assignment(uint64_t s, size_t nvars)
{
    std::vector<char> a(nvars);
    for(size_t v = 0; v < nvars; ++v) a[v] = sample_bit(s, v);
    return a;
}

// ---------------------------------------------------------------- hash keys of nodes
enum HashMode { HASH_NATURAL, HASH_SEEDED, HASH_LOW2, HASH_CONST, HASH_HIGH, HASH_SMALL, HASH_STRIDE, NR_HASH_MODES };
inline HashMode& hash_mode() { static thread_local HashMode m = HASH_NATURAL; return m; }
inline uint64_t& hash_state() { static thread_local uint64_t s = 1; return s; }
inline bool hash_hook_stays = false; // set while several threads run: the hook is in place and not changed
inline std::size_t hash_key_hook(std::size_t k)
{
    const std::size_t full = BDD::hashtablesize - 1;
    uint64_t r = mix(hash_state()++);
    switch(hash_mode()) {
        case HASH_SEEDED: return r & full;
        case HASH_LOW2: return r & 3;
        case HASH_CONST: return 5;
        case HASH_HIGH: return full - (r & 7);      // chains wrap around the end of the table
        case HASH_SMALL: return r & 63;
        case HASH_STRIDE: return (r & 31) << 6;     // multiples of the smallest table size
        default: return k;
    }
}
inline const char* hash_mode_name(HashMode m) { static const char* nm[] = {"natural", "seeded", "low2", "constant", "near-end", "small", "stride"}; return nm[m]; }
inline void set_hash_mode(HashMode m, uint64_t seed) { hash_mode() = m; hash_state() = seed * 1000003; if(!hash_hook_stays) lbdd_verif_hash_key = m == HASH_NATURAL ? nullptr : &hash_key_hook; }
inline HashMode draw_hash_mode(Src& s)
{
    HashMode m = (HashMode)s.pick({6, 3, 3, 2, 3, 2, 2});
    set_hash_mode(m, s.draw(1000));
    char b[48]; snprintf(b, sizeof b, "hash keys: %s", hash_mode_name(m)); label(b);
    VP_LOG("hash keys %s", hash_mode_name(m));
    return m;
}

// The library's operation cache is indexed by hash keys. With keys that nearly all coincide it remembers next to
// nothing and operations take time exponential in the number of variables, so such keys only go with few variables.
inline void calm_hash_keys(size_t nvars)
{
    if(nvars > 15 && hash_mode() > HASH_SEEDED) { set_hash_mode(HASH_SEEDED, nvars); label("hash keys spread because of the number of variables"); }
}

// leave garbage in the allocator's free lists
inline void dirty_heap(Src& s)
{
    if(!s.chance(1, 3)) return;
    unsigned char fillv = s.coin() ? 0xff : 0xa5;
    std::vector<void*> v;
    for(size_t sz : {64u, 512u, 4096u, 40000u, 100000u}) for(int i = 0; i < 3; ++i) { void* p = malloc(sz); memset(p, fillv, sz); v.push_back(p); }
    { void* p = malloc(9u << 20); memset(p, fillv, 9u << 20); v.push_back(p); }
    for(void* p : v) { asm volatile("" ::"r"(p) : "memory"); free(p); }
    label("dirty heap");
}

// ---------------------------------------------------------------- histories on one manager
// Variables in use: an increasing list of indices, possibly with gaps.
inline std::vector<size_t> draw_variables(Src& s, size_t maxn)
{
    size_t n = s.range(1, maxn);
    std::vector<size_t> v;
    size_t cur = 0;
    switch(s.pick({50, 30, 10, 2})) {
        case 0: for(size_t i = 0; i < n; ++i) v.push_back(i); break;
        case 3: { // around a power of two, also beyond what 16 bits hold
            static const size_t at[] = {126, 254, 1022, 4094, 65534, 70000};
            cur = at[s.pick({3, 3, 3, 3, 3, 1})];
            size_t below = s.draw(2);
            for(size_t i = 0; i < n && i < below; ++i) v.push_back(i * 7);
            for(size_t i = v.size(); i < n; ++i) { v.push_back(cur); cur += 1 + s.draw(1); }
            if(v.back() > 4000) label("variables beyond 4000");
            if(v.back() > 65535) label("variables beyond 65535");
            break;
        }
        case 1: cur = s.draw(5); for(size_t i = 0; i < n; ++i) { v.push_back(cur); cur += 1 + s.draw(3); } break;
        default: cur = s.draw(300); for(size_t i = 0; i < n; ++i) { v.push_back(cur); cur += 1 + s.draw(200); } label("sparse variables"); break;
    }
    calm_hash_keys(v.size());
    return v;
}

struct Item { node_ref h; F f; };

class World {
public:
    World(Src& s, std::vector<size_t> variables, bool check_all = true)
        : s(s), mgr(new bdd_mgr), vars(std::move(variables)), thorough_checks(check_all) {}
    Src& s;
    RB rb;
    std::unique_ptr<bdd_mgr> mgr;
    std::vector<size_t> vars;
    std::vector<Item> pool;
    std::unordered_map<void*, std::vector<uint64_t>> dummy;
    size_t maxpool = 40;
    bool thorough_checks;
    size_t ops = 0, gcs = 0;
    size_t max_nodes = 3000; // results above this size are not kept

    // one in so many cases starts with a layered diagram of a thousand to some ten thousand nodes (0: none)
    unsigned huge_one_in = 0;
    bool huge = false, big_taken = false;

    size_t some() { return s.draw(pool.size() - 1); }
    // an operand: a pool element, a constant or a sub-diagram of a pool element
    Item operand()
    {
        Item r = any_operand();
        if(!huge || rb.size(r.f) <= 12) return r;
        // at most one large operand until the next result: the work of an operation follows the product of the sizes
        if(big_taken) { size_t v = a_var(); return Item{proj(v), rb.variable(v)}; }
        big_taken = true;
        return r;
    }
    Item any_operand()
    {
        switch(s.pick({12, 1, 4, 2})) {
            case 1: return constant(s.coin());
            case 2: return sub(pool[some()]);
            case 3: return pool.back();
            default: return pool[some()];
        }
    }
    Item constant(bool b) { return b ? Item{mgr->topsink(), 1} : Item{mgr->botsink(), 0}; }
    Item sub(const Item& i)
    {
        Item r = i;
        for(unsigned k = s.range(1, 4); k > 0 && !r.h.is_terminal(); --k) {
            bool up = s.coin();
            node_ref c = up ? r.h.high() : r.h.low();
            F f = up ? rb.hi(r.f) : rb.lo(r.f);
            r = Item{c, f};
        }
        return r;
    }
    bool need_vars(size_t v) { return v >= mgr->nr_variables(); }
    node_ref proj(size_t v) { return mgr->projection(v); }
    // check a result and keep it
    void result(node_ref h, F f, const char* what)
    {
        ++ops;
        big_taken = false;
        if(thorough_checks) check_denotes(rb, h, f, what);
        else { Reader rd(rb); F got = rd(h); VP_CHECK(got == f, "%s: denotes %s, expected %s", what, rb.text(got, 12).c_str(), rb.text(f, 12).c_str()); }
        for(const Item& i : pool) {
            compared();
            if((i.f == f) != (i.h == h)) fail("%s: %s handle as one in the pool with the %s function (%s)", what, i.h == h ? "same" : "different", i.f == f ? "same" : "different", rb.text(f).c_str());
            if((i.h != h) == (i.h == h)) fail("%s: == and != agree", what);
        }
        if(rb.size(f) <= max_nodes) push(h, f);
    }
    void push(node_ref h, F f)
    {
        // constants and functions already held are kept only sometimes, so that operands stay interesting
        if(pool.size() >= 3) {
            bool dull = f < 2;
            for(const Item& i : pool) if(i.f == f) dull = true;
            if(dull && !s.chance(1, 6)) return;
        }
        if(pool.size() >= maxpool) { size_t k = s.draw(pool.size() - 1); pool[k].h = h; pool[k].f = f; }
        else pool.push_back({h, f});
    }
    void check_pool(const char* when)
    {
        Reader rd(rb);
        for(const Item& i : pool) {
            F got = rd(i.h);
            VP_CHECK(got == i.f, "%s: a held handle denotes %s, expected %s", when, rb.text(got, 12).c_str(), rb.text(i.f, 12).c_str());
        }
        if(thorough_checks) { std::vector<node_ref> roots; for(const Item& i : pool) roots.push_back(i.h); check_shape(roots, when); }
        std::unordered_map<F, void*> canon;
        for(const Item& i : pool) { auto [it, fresh] = canon.try_emplace(i.f, i.h.address()); VP_CHECK(fresh || it->second == i.h.address(), "%s: two held handles of one function differ", when); }
        std::unordered_map<void*, F> inv;
        for(auto& [f, a] : canon) { auto [it, fresh] = inv.try_emplace(a, f); VP_CHECK(fresh, "%s: one handle for two functions", when); }
    }
    void start()
    {
        // create variables in one of several ways
        size_t top = vars.back();
        switch(s.pick({2, 2, 1})) {
            case 0: for(size_t i = 0; i <= top; ++i) { size_t k = mgr->add_variable(); VP_CHECK(k == i && mgr->nr_variables() == i + 1, "add_variable returned %zu as variable number %zu", k, i); } break;
            case 1: break; // created by projection
            default: mgr->projection(top); VP_CHECK(mgr->nr_variables() == top + 1, "projection(%zu) left %zu variables", top, mgr->nr_variables()); break;
        }
        unsigned k = std::min<size_t>(vars.size(), s.range(1, 6));
        for(unsigned i = 0; i < k; ++i) { size_t v = vars[s.draw(vars.size() - 1)]; VP_LOG("x%zu", v); result(proj(v), rb.variable(v), "projection"); }
        for(unsigned i = s.draw(2); i > 0; --i) op_dense(std::min<size_t>(vars.size(), 6));
        // (only with well spread hash keys: the operation cache is indexed by them, and without it the work is exponential)
        if(huge_one_in != 0 && hash_mode() <= HASH_SEEDED && s.chance(1, huge_one_in)) op_huge();
    }
    // a layered diagram with many nodes, built bottom up
    void op_huge()
    {
        static const size_t sizes[] = {1200, 4000, 14000, 130000};
        size_t want = sizes[s.pick({6, 8, 8, 3})], layers = s.range(14, 40);
        uint64_t seed = s.draw(1 << 20);
        while(vars.size() < layers) vars.push_back(vars.back() + 1);
        for(size_t v : vars) if(v >= mgr->nr_variables()) mgr->projection(v);
        size_t w = want / (layers - 10) + 1;
        VP_LOG("layered diagram, %zu variables, width %zu, seed %lu", vars.size(), w, (unsigned long)seed);
        std::vector<Item> layer{constant(false), constant(true)};
        for(size_t i = vars.size(); i-- > 0;) {
            std::vector<Item> nx;
            for(size_t j = 0; j < w; ++j) {
                uint64_t r = mix(seed * 31 + i * 1000003 + j);
                const Item& l = layer[r % layer.size()]; const Item& u = layer[(r >> 24) % layer.size()];
                nx.push_back(Item{mgr->unique_find(vars[i], l.h, u.h), rb.mk(vars[i], l.f, u.f)});
            }
            layer.swap(nx);
        }
        huge = true;
        max_nodes = std::max<size_t>(max_nodes, 4 * want);
        maxpool = std::min<size_t>(maxpool, 14);
        Item top = layer[0];
        layer.clear();
        size_t n = rb.size(top.f);
        result(top.h, top.f, "layered diagram");
        label(n > 65536 ? "layered diagram above 65536 nodes" : n > 10000 ? "layered diagram above 10000 nodes" : n > 1000 ? "layered diagram above 1000 nodes" : "layered diagram");
    }
    size_t a_var() { return vars[s.draw(vars.size() - 1)]; }

    static const char* opname(int k) { static const char* n[] = {"and", "or", "xor"}; return n[k]; }
    F apply(int k, F a, F b) { return k == 0 ? rb.conj(a, b) : k == 1 ? rb.disj(a, b) : rb.exor(a, b); }
    node_ref apply2(int k, node_ref a, node_ref b) { return k == 0 ? mgr->and_rec(a, b) : k == 1 ? mgr->or_rec(a, b) : mgr->xor_rec(a, b); }

    void op_binary()
    {
        int k = s.pick({3, 3, 3});
        unsigned form = s.pick({6, 2, 2, 3});
        Item a = operand(), b = operand();
        if(s.chance(1, 12)) b = Item{mgr->negate(a.h), rb.neg(a.f)};
        char what[64];
        if(form == 0) {
            snprintf(what, sizeof what, "%s_rec", opname(k));
            VP_LOG("%s(%s, %s)", what, rb.text(a.f).c_str(), rb.text(b.f).c_str());
            node_ref r = apply2(k, a.h, b.h);
            check_same(a); check_same(b);
            result(r, apply(k, a.f, b.f), what);
        } else if(form == 1) {
            snprintf(what, sizeof what, "operator form of %s", opname(k));
            VP_LOG("%s(%s, %s)", what, rb.text(a.f).c_str(), rb.text(b.f).c_str());
            node_ref r = k == 0 ? (a.h & b.h) : k == 1 ? (a.h || b.h) : (a.h ^ b.h);
            result(r, apply(k, a.f, b.f), what);
        } else if(form == 2) {
            Item c = operand();
            std::vector<Item> x{a, b, c};
            for(size_t n = s.pick({6, 6, 2, 1, 1, 1}); n > 0; --n) x.push_back(operand());
            snprintf(what, sizeof what, "variadic %s", opname(k));
            VP_LOG("%s of %zu", what, x.size());
            F f = a.f;
            for(size_t i = 1; i < x.size(); ++i) f = apply(k, f, x[i].f);
            auto call = [&](auto... h) { return k == 0 ? mgr->and_rec(h...) : k == 1 ? mgr->or_rec(h...) : mgr->xor_rec(h...); };
            node_ref r;
            switch(x.size()) {
                case 3: r = call(x[0].h, x[1].h, x[2].h); break;
                case 4: r = call(x[0].h, x[1].h, x[2].h, x[3].h); break;
                case 5: r = call(x[0].h, x[1].h, x[2].h, x[3].h, x[4].h); break;
                case 6: r = call(x[0].h, x[1].h, x[2].h, x[3].h, x[4].h, x[5].h); break;
                case 7: r = call(x[0].h, x[1].h, x[2].h, x[3].h, x[4].h, x[5].h, x[6].h); break;
                default: r = call(x[0].h, x[1].h, x[2].h, x[3].h, x[4].h, x[5].h, x[6].h, x[7].h);
            }
            if(x.size() > 4) label("variadic with five to eight operands");
            check_same(a); check_same(b); check_same(c);
            result(r, f, what);
        } else {
            size_t n = s.range(2, 9);
            std::vector<Item> it{a, b};
            if(s.chance(1, 8)) { // a long range in which one operand decides, at a drawn position
                switch(s.pick({6, 3, 1})) { case 0: n = s.range(10, 40); break; case 1: n = s.range(41, 130); break; default: n = s.range(131, 600); }
                it.clear();
                const size_t z = a_var();
                auto lit = [&](size_t v, bool neg) { node_ref x = proj(v); return neg ? Item{mgr->negate(x), rb.neg(rb.variable(v))} : Item{x, rb.variable(v)}; };
                while(it.size() < n) {
                    if(k == 2) { it.push_back(lit(a_var(), s.coin())); continue; }
                    size_t u = a_var(), v = a_var();
                    if(u > v) std::swap(u, v);
                    if(u == z || v == z) { it.push_back(constant(k == 0)); continue; }
                    Item x = lit(u, k == 0), y = lit(v, k != 0); // u implies v, or its negation
                    it.push_back(k == 0 ? Item{mgr->or_rec(x.h, y.h), rb.disj(x.f, y.f)} : Item{mgr->and_rec(x.h, y.h), rb.conj(x.f, y.f)});
                }
                it[s.draw(n - 1)] = lit(z, s.coin());
                a = it[0];
                label(n <= 40 ? "long range, up to 40" : n <= 130 ? "long range, above 40" : "long range, above 130");
            } else
            while(it.size() < n) it.push_back(operand());
            std::vector<node_ref> hs; F f = a.f;
            for(auto& i : it) hs.push_back(i.h);
            for(size_t i = 1; i < n; ++i) f = apply(k, f, it[i].f);
            snprintf(what, sizeof what, "%s over a range of %zu", opname(k), n);
            VP_LOG("%s", what);
            node_ref r = k == 0 ? mgr->and_rec(hs.begin(), hs.end()) : k == 1 ? mgr->or_rec(hs.begin(), hs.end()) : mgr->xor_rec(hs.begin(), hs.end());
            for(size_t i = 0; i < n; ++i) VP_CHECK(hs[i] == it[i].h, "%s changed its input range", what);
            for(auto& i : it) check_same(i);
            result(r, f, what);
        }
        label(what[0] == 'v' ? "variadic" : form == 3 ? "range form" : form == 1 ? "operator form" : "two-operand form");
    }
    void check_same(const Item& i)
    {
        if(!s_check_operands) return;
        Reader rd(rb);
        F got = rd(i.h);
        VP_CHECK(got == i.f, "an operand was changed: denotes %s, was %s", rb.text(got, 12).c_str(), rb.text(i.f, 12).c_str());
    }
    bool s_check_operands = true;
    void op_negate()
    {
        Item a = operand();
        bool form = s.coin();
        VP_LOG("%s(%s)", form ? "operator!" : "negate", rb.text(a.f).c_str());
        node_ref r = form ? !a.h : mgr->negate(a.h);
        check_same(a);
        result(r, rb.neg(a.f), "negation");
        label("negate");
    }
    void op_ite()
    {
        Item a = operand(), b = operand(), c = operand();
        switch(s.pick({6, 1, 1, 1, 1, 1, 1})) {
            case 1: b = a; break;
            case 2: c = a; break;
            case 3: c = b; break;
            case 4: b = constant(s.coin()); break;
            case 5: c = constant(s.coin()); break;
            case 6: { Item t{mgr->negate(a.h), rb.neg(a.f)}; if(s.coin()) b = t; else c = t; break; }
            default: break;
        }
        VP_LOG("ite(%s, %s, %s)", rb.text(a.f).c_str(), rb.text(b.f).c_str(), rb.text(c.f).c_str());
        node_ref r = mgr->ite_rec(a.h, b.h, c.h);
        check_same(a); check_same(b); check_same(c);
        result(r, rb.ite(a.f, b.f, c.f), "if-then-else");
        label("ite");
    }
    void op_literal()
    {
        size_t v = a_var();
        bool neg = s.coin();
        if(neg && v < mgr->nr_variables()) { VP_LOG("!x%zu", v); result(mgr->neg_projection(v), rb.neg(rb.variable(v)), "neg_projection"); }
        else {
            size_t before = mgr->nr_variables();
            VP_LOG("x%zu", v);
            node_ref h = mgr->projection(v);
            VP_CHECK(mgr->nr_variables() == std::max(before, v + 1), "projection(%zu) left %zu variables (had %zu)", v, mgr->nr_variables(), before);
            if(before <= v) label("variable created by projection");
            result(h, rb.variable(v), "projection");
        }
    }
    void op_unique_find()
    {
        Item a = operand(), b = operand();
        uint64_t m = std::min(a.f < 2 ? RB::LEAF : rb.var(a.f), b.f < 2 ? RB::LEAF : rb.var(b.f));
        // a variable above both
        std::vector<size_t> cand;
        for(size_t v : vars) if(v < m && v < mgr->nr_variables()) cand.push_back(v);
        if(cand.empty()) return op_literal();
        size_t v = cand[s.draw(cand.size() - 1)];
        VP_LOG("unique_find(%zu, %s, %s)", v, rb.text(a.f).c_str(), rb.text(b.f).c_str());
        node_ref r = mgr->unique_find(v, a.h, b.h);
        result(r, rb.mk(v, a.f, b.f), "unique_find");
        label("unique_find");
    }
    void op_constant()
    {
        bool b = s.coin();
        node_ref h = b ? mgr->topsink() : mgr->botsink();
        if(!pool.empty() && s.coin()) { node_ref p = pool[some()].h; node_ref h2 = b ? p.topsink() : p.botsink(); VP_CHECK(h2 == h, "constant reached from a handle differs from the manager's"); VP_CHECK(p.find_bdd_mgr() == mgr.get(), "find_bdd_mgr returns another manager"); }
        VP_CHECK(h.is_terminal() && h.is_topsink() == b && h.is_botsink() == !b, "constant %d is not a terminal of its kind", b);
        result(h, b, "constant");
    }
    // a function of up to k of the variables given by a pseudo-random truth table, built bottom up or by operations
    Item dense(size_t k, uint64_t seed, int how)
    {
        std::vector<size_t> vs = vars;
        while(vs.size() > k) vs.erase(vs.begin() + mix(seed + vs.size()) % vs.size());
        for(size_t v : vs) if(v >= mgr->nr_variables()) mgr->projection(v);
        std::unordered_map<uint64_t, Item> memo_;
        std::function<Item(size_t, uint64_t)> go = [&](size_t i, uint64_t path) -> Item {
            if(i == vs.size()) return constant(mix(mix(seed) ^ path) % 5 < 2);
            Item l = go(i + 1, path * 2), u = go(i + 1, path * 2 + 1);
            F f = rb.mk(vs[i], l.f, u.f);
            if(how == 0) return Item{mgr->unique_find(vs[i], l.h, u.h), f};
            if(how == 1) return Item{mgr->ite_rec(mgr->projection(vs[i]), u.h, l.h), f};
            node_ref x = mgr->projection(vs[i]);
            return Item{mgr->or_rec(mgr->and_rec(x, u.h), mgr->and_rec(mgr->negate(x), l.h)), f};
        };
        return go(0, 1);
    }
    void op_dense(size_t maxk)
    {
        size_t k = s.range(1, maxk);
        uint64_t seed = s.draw(1 << 20);
        int how = s.pick({3, 1, 1});
        VP_LOG("table of %zu variables, seed %lu, method %d", std::min(k, vars.size()), (unsigned long)seed, how);
        Item i = dense(k, seed, how);
        result(i.h, i.f, "truth table");
        label("dense function");
        if(rb.size(i.f) > 500) label("dense function above 500 nodes");
    }
    void op_drop()
    {
        if(pool.size() <= 1) return;
        size_t k = s.range(1, std::min<size_t>(pool.size() - 1, 6));
        VP_LOG("drop %zu handles", k);
        while(k-- > 0) { size_t i = some(); std::swap(pool[i], pool.back()); pool.pop_back(); }
        label("handles dropped");
    }
    void op_copy()
    {
        size_t i = some(), j = some();
        switch(s.pick({2, 2, 1, 1, 1})) {
            case 0: pool[i] = pool[j]; break;
            case 1: { node_ref t(pool[i].h); node_ref u; u = t; t = u; VP_CHECK(u == pool[i].h && t == u, "copy differs"); pool[j].h = std::move(u); pool[j].f = pool[i].f; break; }
            case 2: { node_ref& r = pool[i].h; r = pool[i].h; break; }
            case 3: { std::vector<node_ref> v(5, pool[i].h); v.erase(v.begin() + 1); v.resize(9); v[7] = v[0]; std::vector<node_ref> w = v; VP_CHECK(w[7] == pool[i].h, "copy in a container differs"); break; }
            default: std::swap(pool[i], pool[j]); break;
        }
        VP_LOG("copy/assign/move handles");
    }
    void op_gc()
    {
        size_t before = mgr->nr_nodes();
        VP_LOG("collect_garbage");
        mgr->collect_garbage();
        ++gcs;
        VP_CHECK(mgr->nr_nodes() <= before, "garbage collection raised the node count from %zu to %zu", before, mgr->nr_nodes());
        check_pool("after garbage collection");
        if(mgr->nr_nodes() < before) label("collection freed nodes");
        if(before - mgr->nr_nodes() > 200) label("collection freed more than 200 nodes");
    }
    void op_addvar()
    {
        size_t n = mgr->nr_variables();
        size_t k = mgr->add_variable();
        VP_CHECK(k == n && mgr->nr_variables() == n + 1, "add_variable returned %zu, %zu variables before", k, n);
        if(s.coin()) vars.insert(std::upper_bound(vars.begin(), vars.end(), k), k);
        if(std::adjacent_find(vars.begin(), vars.end()) != vars.end()) vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
        VP_LOG("add_variable -> %zu", k);
        label("variable added later");
    }
    void op_counting()
    {
        size_t n = s.range(1, 4);
        std::vector<node_ref> hs; std::vector<F> fs;
        for(size_t i = 0; i < n; ++i) { Item a = operand(); hs.push_back(a.h); fs.push_back(a.f); }
        VP_LOG("at_most_one/simplex over %zu diagrams", n);
        // at most one, none
        F none = 1, amo = 1;
        for(F f : fs) { amo = rb.disj(rb.conj(amo, rb.neg(f)), rb.conj(none, f)); none = rb.conj(none, rb.neg(f)); }
        if(s.coin()) result(mgr->at_most_one(hs.begin(), hs.end()), amo, "at_most_one");
        else result(mgr->simplex(hs.begin(), hs.end()), rb.conj(amo, rb.neg(none)), "simplex");
    }
    void op_query()
    {
        Item& a = pool[some()];
        VP_LOG("queries");
        VP_CHECK(a.h.nr_nodes() == rb.size(a.f), "nr_nodes is %zu, expected %zu", a.h.nr_nodes(), rb.size(a.f));
        VP_CHECK(a.h.variables() == rb.support(a.f), "variables() is not the support");
    }
};

// ---------------------------------------------------------------- collections
// Function of a stored entry, from its instructions.
struct EntryShape { F f; size_t nodes; };

inline F entry_function(RB& rb, const bdd_collection& col, size_t nr, const char* what)
{
    auto [b, e] = col.get_bdd_instructions(nr);
    size_t n = std::distance(b, e);
    VP_CHECK(n >= 2, "%s: entry %zu has only %zu instructions", what, nr, n);
    size_t base = col.offset(*b);
    std::vector<F> val(n, UINT32_MAX);
    size_t bots = 0, tops = 0;
    for(size_t k = n; k-- > 0;) {
        const auto& in = *(b + k);
        if(in.is_botsink()) { val[k] = 0; ++bots; continue; }
        if(in.is_topsink()) { val[k] = 1; ++tops; continue; }
        size_t l = in.lo - base, u = in.hi - base;
        VP_CHECK(in.lo >= base && in.hi >= base && l < n && u < n, "%s: entry %zu node %zu has an arc out of the entry", what, nr, k);
        VP_CHECK(val[l] != UINT32_MAX && val[u] != UINT32_MAX && l != k && u != k, "%s: entry %zu node %zu has an arc that does not lead to a later node", what, nr, k);
        val[k] = rb.ite(rb.variable(in.index), val[u], val[l]);
    }
    VP_CHECK(bots == 1 && tops == 1, "%s: entry %zu has %zu false and %zu true terminals", what, nr, bots, tops);
    return val[0];
}

// entry nr is the reduced ordered diagram of f
inline void check_entry(RB& rb, const bdd_collection& col, size_t nr, F f, const char* what)
{
    F got = entry_function(rb, col, nr, what);
    VP_CHECK(got == f, "%s: entry %zu denotes %s, expected %s", what, nr, rb.text(got, 12).c_str(), rb.text(f, 12).c_str());
    VP_CHECK(col.nr_bdd_nodes(nr) == rb.size(f) + 2, "%s: entry %zu has %zu nodes, the reduced diagram has %zu", what, nr, col.nr_bdd_nodes(nr), rb.size(f) + 2);
    // ordered, no duplicates, everything reachable (follows from the count unless it is unordered)
    auto [b, e] = col.get_bdd_instructions(nr);
    size_t n = std::distance(b, e), base = col.offset(*b);
    std::set<std::array<size_t, 3>> tr;
    for(size_t k = 0; k < n; ++k) {
        const auto& in = *(b + k);
        if(in.is_botsink() || in.is_topsink()) continue;
        VP_CHECK(in.lo != in.hi, "%s: entry %zu node %zu has identical children", what, nr, k);
        VP_CHECK((tr.insert({in.index, in.lo, in.hi}).second), "%s: entry %zu node %zu is a duplicate", what, nr, k);
        for(size_t c : {in.lo - base, in.hi - base}) {
            const auto& ch = *(b + c);
            if(!ch.is_botsink() && !ch.is_topsink()) VP_CHECK(ch.index > in.index, "%s: entry %zu has an arc from variable %zu to variable %zu", what, nr, in.index, ch.index);
        }
    }
}

// evaluation of an entry on sampled assignments
inline void check_entry_evaluation(RB& rb, const bdd_collection& col, size_t nr, F f, size_t nvars, uint64_t seed, size_t count, const char* what)
{
    std::vector<size_t> sup = rb.support(f);
    nvars = std::max<size_t>(nvars, sup.empty() ? 1 : sup.back() + 1);
    const bool all = sup.size() <= 6;
    size_t tot = all ? (size_t(1) << sup.size()) : count;
    for(size_t k = 0; k < tot; ++k) {
        std::vector<char> a = sample_assignment(seed + k, nvars);
        if(all) for(size_t i = 0; i < sup.size(); ++i) a[sup[i]] = (k >> i) & 1;
        bool want = rb.eval(f, [&](uint64_t v) { return a[v]; });
        bool got = col.evaluate(nr, a.begin(), a.end());
        VP_CHECK(got == want, "%s: entry %zu evaluates to %d, expected %d", what, nr, got, want);
    }
}

// A random function of the given variables directly in the reference package, with many shapes.
inline F draw_function(Src& s, RB& rb, const std::vector<size_t>& vars, unsigned weight_constants = 1)
{
    switch(s.pick({4, 5, 4, 3, 2, weight_constants})) {
        case 0: { // literal or clause or cube
            size_t k = s.range(1, std::min<size_t>(vars.size(), 5));
            bool cube = s.coin();
            F f = cube;
            for(size_t i = 0; i < k; ++i) {
                F l = rb.variable(vars[s.draw(vars.size() - 1)]);
                if(s.coin()) l = rb.neg(l);
                f = cube ? rb.conj(f, l) : rb.disj(f, l);
            }
            return f;
        }
        case 1: { // truth table over some of the variables
            size_t k = s.range(1, std::min<size_t>(vars.size(), 7));
            uint64_t seed = s.draw(1 << 20);
            std::vector<size_t> vs = vars;
            while(vs.size() > k) vs.erase(vs.begin() + mix(seed + vs.size()) % vs.size());
            std::function<F(size_t, uint64_t)> go = [&](size_t i, uint64_t p) -> F {
                if(i == vs.size()) return mix(mix(seed) ^ p) & 1;
                F l = go(i + 1, 2 * p), u = go(i + 1, 2 * p + 1);
                return rb.mk(vs[i], l, u);
            };
            return go(0, 1);
        }
        case 2: { // random expression
            F f = rb.variable(vars[s.draw(vars.size() - 1)]);
            for(unsigned k = s.range(1, 10); k > 0; --k) {
                F g = rb.variable(vars[s.draw(vars.size() - 1)]);
                switch(s.draw(5)) { case 0: f = rb.conj(f, g); break; case 1: f = rb.disj(f, g); break; case 2: f = rb.exor(f, g); break; case 3: f = rb.conj(f, rb.neg(g)); break; case 4: f = rb.disj(rb.neg(f), g); break; default: f = rb.neg(f); }
            }
            return f;
        }
        case 3: { // cardinality: exactly / at most / at least b of a subset
            std::vector<F> xs;
            uint64_t mask = s.draw(UINT32_MAX);
            for(size_t i = 0; i < vars.size() && xs.size() < 12; ++i) if((mask >> (i % 32)) & 1) xs.push_back(rb.variable(vars[i]));
            if(xs.empty()) return rb.variable(vars[0]);
            size_t b = s.draw(xs.size());
            std::vector<F> cnt(xs.size() + 2, 0); // cnt[k]: exactly k so far
            cnt[0] = 1;
            for(F x : xs) for(size_t k = xs.size() + 1; k-- > 0;) cnt[k] = rb.ite(x, k ? cnt[k - 1] : 0, cnt[k]);
            int kind = s.draw(2);
            if(kind == 0) return cnt[b];
            F f = 0;
            for(size_t k = 0; k <= xs.size(); ++k) if(kind == 1 ? k <= b : k >= b) f = rb.disj(f, cnt[k]);
            return f;
        }
        case 4: { // layered diagram of bounded width: many paths, few nodes
            uint64_t seed = s.draw(1 << 20);
            size_t w = s.range(2, 4);
            std::vector<F> layer{0, 1};
            while(layer.size() < w) layer.push_back(mix(seed + layer.size()) & 1);
            for(size_t i = vars.size(); i-- > 0;) {
                std::vector<F> nx(w);
                for(size_t j = 0; j < w; ++j) { uint64_t r = mix(seed * 31 + i * 7 + j); nx[j] = rb.mk(vars[i], layer[r % w], layer[(r >> 8) % w]); }
                layer = nx;
            }
            return layer[0];
        }
        default: return s.coin();
    }
}

// A function whose diagram has about `want` nodes spread over the variables.
inline F layered_function(RB& rb, const std::vector<size_t>& vars, size_t want, uint64_t seed)
{
    const size_t w = want / (vars.size() > 14 ? vars.size() - 10 : 4) + 1;
    std::vector<F> layer{0, 1};
    for(size_t i = vars.size(); i-- > 0;) {
        std::vector<F> nx;
        for(size_t j = 0; j < w; ++j) { uint64_t r = mix(seed * 31 + i * 1000003 + j); nx.push_back(rb.mk(vars[i], layer[r % layer.size()], layer[(r >> 24) % layer.size()])); }
        layer.swap(nx);
    }
    return layer[0];
}

// Build the diagram of a reference function in a manager, node by node.
inline node_ref build(RB& rb, bdd_mgr& mgr, F f)
{
    std::unordered_map<F, node_ref> done;
    std::function<node_ref(F)> go = [&](F x) -> node_ref {
        if(x == 0) return mgr.botsink();
        if(x == 1) return mgr.topsink();
        auto it = done.find(x);
        if(it != done.end()) return it->second;
        while(mgr.nr_variables() <= rb.var(x)) mgr.add_variable();
        node_ref l = go(rb.lo(x)), u = go(rb.hi(x));
        node_ref r = mgr.unique_find(rb.var(x), l, u);
        done.emplace(x, r);
        return r;
    };
    return go(f);
}

}
