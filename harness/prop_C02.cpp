// C02: canonical diagrams. Oracle: the reference package (function equality) against handle equality, structural
// invariants over everything reachable, and algebraic laws whose two sides must be one handle.
#include "model.h"
using namespace vp;

static void same(node_ref a, node_ref b, const char* law) { VP_CHECK(a == b, "law '%s': the two sides are different handles", law); }

static void laws(World& w, Src& s)
{
    Item ai = w.operand(), bi = w.operand(), ci = w.operand();
    bdd_mgr& m = *w.mgr;
    node_ref a = ai.h, b = bi.h, c = ci.h, T = m.topsink(), B = m.botsink();
    int k = s.draw(15);
    VP_LOG("law %d on %s %s %s", k, w.rb.text(ai.f).c_str(), w.rb.text(bi.f).c_str(), w.rb.text(ci.f).c_str());
    switch(k) {
        case 0: same(m.negate(m.negate(a)), a, "double negation"); break;
        case 1: same(m.negate(m.and_rec(a, b)), m.or_rec(m.negate(a), m.negate(b)), "De Morgan"); break;
        case 2: same(m.and_rec(a, m.or_rec(b, c)), m.or_rec(m.and_rec(a, b), m.and_rec(a, c)), "distributivity"); break;
        case 3: same(m.and_rec(a, b), m.and_rec(b, a), "commutativity"); same(m.or_rec(a, b), m.or_rec(b, a), "commutativity"); same(m.xor_rec(a, b), m.xor_rec(b, a), "commutativity"); break;
        case 4: same(m.and_rec(m.and_rec(a, b), c), m.and_rec(a, m.and_rec(b, c)), "associativity"); break;
        case 5: same(m.xor_rec(m.xor_rec(a, b), c), m.xor_rec(a, m.xor_rec(b, c)), "xor associativity"); break;
        case 6: same(m.xor_rec(a, b), m.or_rec(m.and_rec(a, m.negate(b)), m.and_rec(m.negate(a), b)), "xor expansion"); break;
        case 7: same(m.ite_rec(a, b, c), m.or_rec(m.and_rec(a, b), m.and_rec(m.negate(a), c)), "ite expansion"); break;
        case 8: same(m.or_rec(a, m.and_rec(a, b)), a, "absorption"); break;
        case 9: same(m.ite_rec(a, T, b), m.or_rec(a, b), "ite as or"); same(m.ite_rec(a, b, B), m.and_rec(a, b), "ite as and"); same(m.ite_rec(a, B, T), m.negate(a), "ite as negation"); break;
        case 10: same(m.xor_rec(a, a), B, "xor with itself"); same(m.xor_rec(a, T), m.negate(a), "xor with true"); same(m.xor_rec(a, m.negate(a)), T, "xor with complement"); break;
        case 11: same(m.and_rec(a, m.negate(a)), B, "contradiction"); same(m.or_rec(a, m.negate(a)), T, "tautology"); break;
        case 12: same(m.ite_rec(a, b, m.negate(b)), m.negate(m.xor_rec(a, b)), "ite as equivalence"); break;
        case 13: if(!a.is_terminal()) { // Shannon expansion
                     node_ref x = m.projection(a.variable());
                     same(m.ite_rec(x, a.high(), a.low()), a, "Shannon expansion");
                     same(m.unique_find(a.variable(), a.low(), a.high()), a, "lookup by children");
                     same(m.or_rec(m.and_rec(x, a.high()), m.and_rec(m.negate(x), a.low())), a, "Shannon expansion by and/or");
                 } break;
        case 14: same(m.ite_rec(m.negate(a), b, c), m.ite_rec(a, c, b), "ite with negated condition"); break;
        default: same(m.xor_rec(m.xor_rec(a, b), b), a, "xor twice");
    }
    w.big_taken = false;
    label("law");
}

// one function by several routes
static void routes(World& w, Src& s, size_t maxk)
{
    size_t k = s.range(2, maxk);
    uint64_t seed = s.draw(1 << 20);
    VP_LOG("function %lu of up to %zu variables by three routes", (unsigned long)seed, k);
    Item a = w.dense(k, seed, s.draw(2));
    if(s.chance(1, 3)) { w.op_gc(); label("collection between routes"); }
    Item b = w.dense(k, seed, s.draw(2));
    VP_CHECK(a.h == b.h, "two routes to one function give different handles");
    // as a conjunction of clauses in a drawn order
    std::vector<size_t> vs = w.vars;
    if(vs.size() > 5) vs.resize(5);
    std::vector<uint64_t> minterms;
    for(uint64_t x = 0; x < (1u << vs.size()); ++x) if(mix(seed + x) & 1) minterms.push_back(x);
    auto sum = [&](uint64_t salt, bool dnf) {
        std::vector<uint64_t> o;
        for(uint64_t x = 0; x < (1u << vs.size()); ++x) if(((mix(seed + x) & 1) != 0) == dnf) o.push_back(x);
        std::sort(o.begin(), o.end(), [&](uint64_t x, uint64_t y) { return mix(x + salt) < mix(y + salt); });
        node_ref r = dnf ? w.mgr->botsink() : w.mgr->topsink();
        for(uint64_t x : o) {
            node_ref t = dnf ? w.mgr->topsink() : w.mgr->botsink();
            for(size_t i = 0; i < vs.size(); ++i) {
                node_ref l = w.mgr->projection(vs[i]);
                if((((x >> i) & 1) == 0) == dnf) l = w.mgr->neg_projection(vs[i]);
                t = dnf ? w.mgr->and_rec(t, l) : w.mgr->or_rec(t, l);
            }
            r = dnf ? w.mgr->or_rec(r, t) : w.mgr->and_rec(r, t);
        }
        return r;
    };
    F f = 0;
    for(uint64_t x : minterms) { F t = 1; for(size_t i = 0; i < vs.size(); ++i) { F l = w.rb.variable(vs[i]); t = w.rb.conj(t, ((x >> i) & 1) ? l : w.rb.neg(l)); } f = w.rb.disj(f, t); }
    node_ref p = sum(s.draw(100), true), q = sum(s.draw(100), false);
    VP_CHECK(p == q, "disjunctive and conjunctive form of one function are different handles");
    w.result(p, f, "sum of minterms");
    w.result(a.h, a.f, "truth table");
    label("routes");
}

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 8, 20};
    World w(s, draw_variables(s, maxvars[profile]));
    w.huge_one_in = 60;
    w.start();
    size_t steps = s.range(1, w.huge ? 12 : 35), nt = 0;
    for(size_t i = 0; i < steps; ++i) {
        switch(s.pick({8, 2, 4, 3, 8, 3, 1, 2, 1, 1, 1})) {
            case 0: w.op_binary(); break;
            case 1: w.op_negate(); break;
            case 2: w.op_ite(); break;
            case 3: w.op_unique_find(); break;
            case 4: laws(w, s); ++nt; break;
            case 5: routes(w, s, 8); ++nt; break;
            case 6: w.op_addvar(); break;
            case 7: w.op_literal(); break;
            case 8: w.op_gc(); break;
            case 9: w.op_drop(); break;
            default: w.op_dense(9); break;
        }
        if(i % 8 == 7) w.check_pool("during the history");
    }
    w.check_pool("at the end of the history");
    // every pair
    for(Item& a : w.pool) for(Item& b : w.pool) VP_CHECK((a.h == b.h) == (a.f == b.f) && (a.h != b.h) == (a.f != b.f), "equality of handles does not match equality of functions");
    if(nt >= 1 && w.pool.size() >= 3) nontrivial();
}

const Property vp::property = {"C02", "histories in which functions are computed by several routes and algebraic laws are instantiated with earlier results; after each step all reachable nodes are compared with the reference package; non-trivial: at least one law or multi-route construction and three live functions", run, 12500, 2000, 200000, 40000, 20};
