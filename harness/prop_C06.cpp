// C06: size-limited conjunction. Oracle: reference conjunction and its exact size.
#include "model.h"
using namespace vp;

static void limited(World& w, Src& s, const Item& a, const Item& b, size_t limit, const char* what)
{
    F f = w.rb.conj(a.f, b.f);
    size_t n = w.rb.size(f);
    VP_LOG("%s: limited conjunction of %s and %s, result has %zu nodes, limit %zu", what, w.rb.text(a.f).c_str(), w.rb.text(b.f).c_str(), n, limit);
    auto [h, k] = w.mgr->and_rec_limited(a.h, b.h, limit);
    if(n < limit) {
        VP_CHECK(h.address() != nullptr, "%s: refused although the result has %zu nodes and the limit is %zu", what, n, limit);
        VP_CHECK(k == n, "%s: node count %zu reported, the result has %zu", what, k, n);
        check_denotes(w.rb, h, f, what);
        label("accepted");
        if(n + 1 == limit) label("accepted just below the limit");
    } else {
        VP_CHECK(h.address() == nullptr, "%s: not refused although the result has %zu nodes and the limit is %zu", what, n, limit);
        VP_CHECK(k == std::numeric_limits<size_t>::max(), "%s: count %zu reported on refusal", what, k);
        label("refused");
        if(n == limit) label("refused exactly at the limit");
    }
    (void)s;
}

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({4, 4, 2, 2});
    static const size_t maxvars[] = {5, 9, 16, 14};
    World w(s, draw_variables(s, maxvars[profile]), false);
    w.s_check_operands = false;
    w.huge_one_in = 60;
    w.start();
    if(profile == 3) w.op_dense(12);
    size_t steps = s.range(2, w.huge ? 7 : 22), calls = 0, refused = 0, accepted = 0;
    for(size_t i = 0; i < steps; ++i) {
        switch(s.pick({9, 4, 2, 2, 1, 2, 1, 2})) {
            case 0: {
                Item a = w.operand(), b = w.operand();
                if(s.chance(1, 10)) b = a;
                if(s.chance(1, 12)) b = Item{w.mgr->negate(a.h), w.rb.neg(a.f)};
                if(s.chance(1, 3)) { // a pair that shares parts: conjunctions whose recursion meets the same pairs again
                    Item c = w.operand();
                    a = Item{w.mgr->or_rec(a.h, c.h), w.rb.disj(a.f, c.f)};
                    b = Item{w.mgr->or_rec(b.h, c.h), w.rb.disj(b.f, c.f)};
                }
                size_t n = w.rb.size(w.rb.conj(a.f, b.f));
                auto draw_limit = [&]() -> size_t {
                    switch(s.pick({4, 4, 3, 2, 2, 2, 2, 1})) {
                        case 0: return n;
                        case 1: return n + 1;
                        case 2: return n > 0 ? n - 1 : 0;
                        case 3: return s.draw(2 * n + 2);
                        case 4: return s.draw(2);
                        case 5: return std::max(w.rb.size(a.f), w.rb.size(b.f)) + s.draw(1);
                        case 6: return n + 2 + s.draw(5);
                        default: return std::numeric_limits<size_t>::max();
                    }
                };
                unsigned reps = s.range(1, 4);
                bool known = s.chance(1, 3);
                node_ref ref;
                if(known) { ref = w.mgr->and_rec(a.h, b.h); label("unlimited conjunction computed before"); }
                for(unsigned r = 0; r < reps; ++r) {
                    size_t limit = draw_limit();
                    bool swap = s.coin();
                    limited(w, s, swap ? b : a, swap ? a : b, limit, swap ? "swapped operands" : "operands");
                    (n < limit ? accepted : refused)++;
                    ++calls;
                    if(s.chance(1, 8)) { w.op_gc(); label("collection between"); }
                }
                node_ref full = w.mgr->and_rec(a.h, b.h);
                auto [h, k] = w.mgr->and_rec_limited(a.h, b.h, n + 1);
                VP_CHECK(h == full, "limited and unlimited conjunction are different handles");
                VP_CHECK(k == n, "count %zu, result has %zu nodes", k, n);
                if(known) VP_CHECK(ref == full, "conjunction computed before and after are different handles");
                w.result(full, w.rb.conj(a.f, b.f), "conjunction after limited conjunctions");
                if(w.rb.size(a.f) > 40 && w.rb.size(b.f) > 40) label("operands above 40 nodes");
                break;
            }
            case 1: w.op_binary(); break;
            case 2: w.op_ite(); break;
            case 3: w.op_dense(9); break;
            case 4: w.op_negate(); break;
            case 5: w.op_drop(); break;
            case 6: w.op_gc(); break;
            default: { w.big_taken = false; // many refusals, then everything must still work
                for(unsigned n = s.range(2, 12); n > 0; --n) { Item a = w.operand(), b = w.operand(); size_t sz = w.rb.size(w.rb.conj(a.f, b.f)); limited(w, s, a, b, sz == 0 ? 0 : s.draw(sz), "series of refusals"); ++refused; }
                w.check_pool("after refusals");
            }
        }
    }
    w.check_pool("at the end");
    if(calls > 0 && refused > 0 && accepted > 0) nontrivial();
}

const Property vp::property = {"C06", "histories of operations and limited conjunctions with limits around the exact result size, repeated with swapped operands, before and after the unlimited conjunction and collections; non-trivial: at least one refused and one accepted limited conjunction", run, 15000, 3000, 200000, 40000, 20};
