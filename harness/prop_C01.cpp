// C01: Boolean operations compute the right function.
// Oracle: the truth value of the operation applied to the operands' values, on all assignments of the case's
// variables (up to 6 of them) or on sampled ones, plus the reference package for the whole function.
#include "model.h"
using namespace vp;

// values of a handle on 64 assignments at once; the assignments are fixed per case
struct Bits {
    std::vector<uint64_t> var; // by variable index
    explicit Bits(size_t nvars) : var(nvars) {}
};

static bool evaluate_at(node_ref h, const std::vector<char>& a) { return h.evaluate(a.begin(), a.end()); }

static void check_pointwise(World& w, node_ref h, F f, uint64_t salt)
{
    std::vector<size_t> vs = w.vars;
    const size_t top = std::max<size_t>(w.mgr->nr_variables(), vs.back() + 1);
    const bool all = vs.size() <= 5;
    const size_t n = all ? size_t(1) << vs.size() : 24;
    for(size_t k = 0; k < n; ++k) {
        std::vector<char> a = sample_assignment(salt + k, top);
        if(all) for(size_t i = 0; i < vs.size(); ++i) a[vs[i]] = (k >> i) & 1;
        bool want = w.rb.eval(f, [&](uint64_t v) { return a[v]; });
        VP_CHECK(evaluate_at(h, a) == want, "evaluation gives %d, expected %d for %s", !want, want, w.rb.text(f, 12).c_str());
    }
}

// direct evaluation of an operation on the operands' handles: independent of the reference package
static void pointwise_op(World& w, Src& s)
{
    Item a = w.operand(), b = w.operand(), c = w.operand();
    int k = s.draw(4);
    node_ref r;
    switch(k) {
        case 0: r = w.mgr->and_rec(a.h, b.h); break;
        case 1: r = w.mgr->or_rec(a.h, b.h); break;
        case 2: r = w.mgr->xor_rec(a.h, b.h); break;
        case 3: r = w.mgr->negate(a.h); break;
        default: r = w.mgr->ite_rec(a.h, b.h, c.h);
    }
    VP_LOG("pointwise op %d on %s %s %s", k, w.rb.text(a.f).c_str(), w.rb.text(b.f).c_str(), w.rb.text(c.f).c_str());
    const size_t top = std::max<size_t>(w.mgr->nr_variables(), w.vars.back() + 1);
    for(size_t j = 0; j < 32; ++j) {
        std::vector<char> x = sample_assignment(s.position() * 64 + j, top);
        bool p = evaluate_at(a.h, x), q = evaluate_at(b.h, x), t = evaluate_at(c.h, x);
        bool want = k == 0 ? p && q : k == 1 ? p || q : k == 2 ? p != q : k == 3 ? !p : p ? q : t;
        VP_CHECK(evaluate_at(r, x) == want, "operation %d on values %d %d %d evaluates to %d", k, p, q, t, !want);
    }
    F f = k < 3 ? w.apply(k, a.f, b.f) : k == 3 ? w.rb.neg(a.f) : w.rb.ite(a.f, b.f, c.f);
    w.result(r, f, "operation");
}

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({5, 4, 2, 2});
    static const size_t maxvars[] = {5, 9, 24, 14};
    World w(s, draw_variables(s, maxvars[profile]));
    if(profile == 3) w.max_nodes = 6000;
    w.huge_one_in = 60;
    w.start();
    size_t steps = s.range(1, w.huge ? 12 : profile == 0 ? 60 : profile == 3 ? 25 : 40);
    size_t nt = 0;
    for(size_t i = 0; i < steps; ++i) {
        size_t before = w.ops;
        switch(s.pick({14, 3, 6, 4, 3, 2, 1, 3, 3, profile == 3 ? 6u : 1u, 1, 1})) {
            case 0: w.op_binary(); ++nt; break;
            case 1: w.op_negate(); break;
            case 2: w.op_ite(); ++nt; break;
            case 3: w.op_literal(); break;
            case 4: w.op_unique_find(); break;
            case 5: w.op_constant(); break;
            case 6: w.op_addvar(); break;
            case 7: pointwise_op(w, s); ++nt; break;
            case 8: w.op_drop(); break;
            case 9: w.op_dense(profile == 3 ? 13 : 6); break;
            case 10: w.op_counting(); break;
            default: w.op_gc(); break;
        }
        if(w.ops > before) check_pointwise(w, w.pool.back().h, w.pool.back().f, i * 64);
    }
    w.check_pool("at the end of the history");
    if(nt >= 3) nontrivial();
    static const char* nm[] = {"profile: up to 5 variables", "profile: up to 9 variables", "profile: up to 24 variables", "profile: large diagrams"};
    label(nm[profile]);
}

const Property vp::property = {"C01", "histories of up to 60 operations on one manager, operands drawn from earlier results, their sub-diagrams and constants; non-trivial: at least three binary or ternary operations", run, 25000, 4000, 400000, 80000, 20};
