// C07: counting constraints. Oracle: the functions "exactly k of the list so far are true", built in the reference package.
#include "model.h"
using namespace vp;

struct Counts { // exact[k]: exactly k members true, for k up to a cap
    RB& rb;
    std::vector<F> exact;
    Counts(RB& rb, const std::vector<F>& fs, size_t cap) : rb(rb), exact(std::min(fs.size(), cap) + 1, 0)
    {
        exact[0] = 1;
        for(F f : fs) for(size_t k = exact.size(); k-- > 0;) exact[k] = rb.ite(f, k ? exact[k - 1] : 0, exact[k]);
    }
    F at_most(size_t b) { F r = 0; for(size_t k = 0; k < exact.size() && k <= b; ++k) r = rb.disj(r, exact[k]); return r; }
    F at_least(size_t b) { return b == 0 ? 1 : rb.neg(at_most(b - 1)); }
};

template<class IT>
static node_ref call(bdd_mgr& m, int kind, IT b, IT e, size_t bound)
{
    switch(kind) {
        case 0: return m.all_false(b, e);
        case 1: return m.at_least_one(b, e);
        case 2: return m.at_most_one(b, e);
        case 3: return m.simplex(b, e);
        case 4: return m.at_least(b, e, bound);
        case 5: return m.at_most(b, e, bound);
        default: return m.cardinality(b, e, bound);
    }
}
static const char* kinds[] = {"all_false", "at_least_one", "at_most_one", "simplex", "at_least", "at_most", "cardinality"};

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({5, 4, 3, 2});
    std::vector<size_t> vars;
    switch(profile) {
        case 0: vars = draw_variables(s, 8); break;
        case 1: vars = draw_variables(s, 9); break;
        case 2: { size_t n = s.chance(1, 6) ? s.chance(1, 4) ? s.range(250, 400) : s.range(61, 140) : s.range(8, 60); for(size_t i = 0; i < n; ++i) vars.push_back(i); break; } // long lists of variables
        default: { size_t n = s.range(8, tier ? 24 : 18); size_t c = s.draw(3); for(size_t i = 0; i < n; ++i) { vars.push_back(c); c += 1 + s.draw(1); } }
    }
    calm_hash_keys(vars.size());
    World w(s, vars, false);
    w.s_check_operands = false;
    w.start();
    size_t rounds = s.range(1, 5), repeats = 0, arbitrary = 0, calls = 0, above = 0;
    for(size_t round = 0; round < rounds; ++round) {
        std::vector<Item> list;
        size_t n;
        if(profile == 0 || profile == 1) {
            n = s.range(1, 10);
            if(profile == 1 || s.coin()) for(unsigned k = s.draw(4); k > 0; --k) s.coin() ? w.op_binary() : w.op_dense(5);
            bool only_vars = s.chance(1, 3);
            for(size_t i = 0; i < n; ++i) {
                if(!list.empty() && s.chance(1, 8)) { list.push_back(list[s.draw(list.size() - 1)]); ++repeats; continue; }
                if(only_vars) { size_t v = w.a_var(); bool neg = s.chance(1, 4); node_ref h = w.mgr->projection(v); list.push_back(neg ? Item{w.mgr->negate(h), w.rb.neg(w.rb.variable(v))} : Item{h, w.rb.variable(v)}); }
                else { list.push_back(w.operand()); ++arbitrary; }
            }
        } else { // distinct variables in a drawn order
            n = s.range(vars.size() > 200 && s.chance(3, 4) ? 250 : 1, vars.size());
            uint64_t seed = s.draw(1000);
            std::vector<size_t> o = vars;
            if(s.chance(1, 2)) std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return mix(a + seed) < mix(b + seed); });
            if(n > 50 && profile == 2 && o != vars) n = 50;
            for(size_t i = 0; i < n; ++i) list.push_back({w.mgr->projection(o[i]), w.rb.variable(o[i])});
        }
        std::vector<node_ref> hs; std::vector<F> fs;
        for(Item& i : list) { hs.push_back(i.h); fs.push_back(i.f); }
        // the library's work for a bound b on n members: 2^L * binomial(b + L, L), L = ceil(log2 n)
        auto cost = [&](size_t b) { size_t L = 0; while((size_t(1) << L) < n) ++L; double x = size_t(1) << L; for(size_t i = 1; i <= L; ++i) x = x * (b + i) / i; return x; };
        size_t bmax = n;
        if(profile >= 2 && n > 14) { bool more = n <= 64 && s.chance(1, 5); bmax = more ? 20 : 8; while(bmax > 1 && cost(bmax) > (more ? 2e5 : 3e4)) --bmax; }
        Counts c(w.rb, fs, std::max<size_t>(bmax, 1));
        VP_LOG("list of %zu diagrams", n);
        if(n == 1) label("one member");
        if(n >= 4) label("four or more members");
        if(n > 16) label("more than 16 members");
        if(n > 60) label(n > 255 ? "more than 255 members" : "more than 60 members");
        size_t k = s.range(1, 5);
        std::map<std::pair<int, size_t>, node_ref> got;
        for(size_t j = 0; j < k; ++j) {
            int kind = s.draw(6);
            size_t b = 0;
            if(kind >= 4) switch(s.pick({8, 3, 2, 1, 1})) {
                case 0: b = s.draw(n); break;
                case 1: b = n; break;
                case 2: b = n + 1 + s.draw(2); break;
                case 3: b = 0; break;
                default: b = s.coin() ? std::numeric_limits<size_t>::max() - s.draw(1) : (1ull << 32) + s.draw(3);
            }
            if(kind >= 4 && b <= n && b > bmax) b = s.draw(bmax);
            if(kind >= 4 && n > 40 && b >= 2) label("bound of two or more on more than 40 members");
            if(kind >= 4 && n > 14 && b > 8 && b < n) label("bound of nine or more on more than 14 members");
            if(b > n) { ++above; label("bound above the list length"); }
            F want = 0;
            switch(kind) {
                case 0: want = c.exact[0]; break;
                case 1: want = c.at_least(1); break;
                case 2: want = c.at_most(1); break;
                case 3: want = n >= 1 ? c.exact[1] : 0; break;
                case 4: want = b > n ? 0 : c.at_least(b); break;
                case 5: want = b >= n ? 1 : c.at_most(b); break;
                default: want = b > n ? 0 : c.exact[b];
            }
            node_ref r;
            VP_LOG("%s of %zu, bound %zu", kinds[kind], n, b);
            switch(s.pick({4, 1, 1})) {
                case 0: r = call(*w.mgr, kind, hs.begin(), hs.end(), b); break;
                case 1: { const std::vector<node_ref> cv(hs); r = call(*w.mgr, kind, cv.begin(), cv.end(), b); break; }
                default: { std::unique_ptr<node_ref[]> a(new node_ref[n]); for(size_t i = 0; i < n; ++i) a[i] = hs[i]; r = call(*w.mgr, kind, a.get(), a.get() + n, b); }
            }
            for(size_t i = 0; i < n; ++i) VP_CHECK(hs[i] == list[i].h, "%s changed its input list", kinds[kind]);
            char what[64]; snprintf(what, sizeof what, "%s of %zu, bound %zu", kinds[kind], n, b);
            check_denotes(w.rb, r, want, what);
            got.insert({{kind, b}, r});
            ++calls;
            label(kinds[kind]);
            // one assignment evaluated directly, by counting
            std::vector<char> a = sample_assignment(j * 77 + round, vars.back() + 1);
            size_t cnt = 0;
            for(F f : fs) cnt += w.rb.eval(f, [&](uint64_t v) { return a[v]; });
            bool holds = kind == 0 ? cnt == 0 : kind == 1 ? cnt >= 1 : kind == 2 ? cnt <= 1 : kind == 3 ? cnt == 1 : kind == 4 ? cnt >= b : kind == 5 ? cnt <= b : cnt == b;
            VP_CHECK(r.evaluate(a.begin(), a.end()) == holds, "%s evaluates to %d with %zu of %zu members true", what, !holds, cnt, n);
            if(w.rb.size(want) <= 400) w.result(r, want, what);
            if(s.chance(1, 10)) w.op_gc();
        }
        // equivalent constraints are one handle
        if(n <= 12) {
            bdd_mgr& m = *w.mgr;
            size_t b = s.draw(n + 1);
            auto al = [&](size_t x) { return m.at_least(hs.begin(), hs.end(), x); };
            auto am = [&](size_t x) { return m.at_most(hs.begin(), hs.end(), x); };
            auto ca = [&](size_t x) { return m.cardinality(hs.begin(), hs.end(), x); };
            VP_LOG("identities with bound %zu", b);
            VP_CHECK(al(b + 1) == m.negate(am(b)), "at_least(%zu) is not the negation of at_most(%zu) for %zu members", b + 1, b, n);
            VP_CHECK(ca(b) == m.and_rec(al(b), am(b)), "cardinality(%zu) is not at_least and at_most for %zu members", b, n);
            VP_CHECK(al(1) == m.at_least_one(hs.begin(), hs.end()), "at_least(1) differs from at_least_one for %zu members", n);
            VP_CHECK(am(1) == m.at_most_one(hs.begin(), hs.end()), "at_most(1) differs from at_most_one for %zu members", n);
            VP_CHECK(ca(1) == m.simplex(hs.begin(), hs.end()), "cardinality(1) differs from simplex for %zu members", n);
            VP_CHECK(ca(0) == m.all_false(hs.begin(), hs.end()) && am(0) == ca(0), "cardinality(0), at_most(0) and all_false differ for %zu members", n);
            // the order of the list does not matter
            std::vector<node_ref> rev(hs.rbegin(), hs.rend());
            VP_CHECK(m.cardinality(rev.begin(), rev.end(), b) == ca(b), "cardinality(%zu) depends on the order of the list", b);
            label("identities");
        }
    }
    w.check_pool("at the end");
    if(calls >= 2 && (repeats + arbitrary + above > 0 || profile >= 2)) nontrivial();
}

const Property vp::property = {"C07", "lists of variables, negated variables and arbitrary functions (with repeats) and bounds from 0 to beyond the list length; non-trivial: at least two constraints on lists with repeats, arbitrary members, bounds above the length or on long lists", run, 10000, 1800, 150000, 30000, 20};
