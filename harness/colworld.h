// Histories on a collection with a model: the list of stored functions.
#pragma once
#include "model.h"
#include <deque>
#include <sstream>
#include <set>

namespace vp {

typedef std::vector<std::array<size_t, 3>> Content; // instructions of one entry, relative to its start

inline Content content(const bdd_collection& col, size_t nr)
{
    auto [b, e] = col.get_bdd_instructions(nr);
    size_t n = std::distance(b, e), base = n ? col.offset(*b) : 0;
    Content c;
    for(size_t k = 0; k < n; ++k) {
        const auto& in = *(b + k);
        if(in.is_botsink()) c.push_back({SIZE_MAX, 0, 0});
        else if(in.is_topsink()) c.push_back({SIZE_MAX, 1, 1});
        else c.push_back({in.index, in.lo - base, in.hi - base});
    }
    return c;
}

class ColWorld {
public:
    ColWorld(Src& s, std::vector<size_t> variables) : s(s), mgr(new bdd_mgr), vars(std::move(variables)) {}
    Src& s;
    RB rb;
    std::unique_ptr<bdd_mgr> mgr;
    bdd_collection col;
    std::vector<size_t> vars;
    std::vector<F> model;         // function of every entry
    size_t max_nodes = 1500;      // larger functions are not stored
    size_t max_entries = 60;
    size_t ops = 0, refused = 0, removed = 0;
    bool large = false;           // holds an entry of a thousand nodes or more

    size_t spent = 0;            // nodes looked at, roughly
    // a history with large entries ends early when it has done enough
    bool tired() const { return large && spent > 2500000; }
    // Now and then start with many small entries, or with large ones; called once, before the history proper.
    void begin(unsigned many_one_in, unsigned large_one_in)
    {
        if(many_one_in != 0 && s.chance(1, many_one_in)) {
            size_t n = 0;
            switch(s.pick({8, 4, 1})) { case 0: n = s.range(60, 150); break; case 1: n = s.range(151, 420); break; default: n = s.range(421, 1400); }
            uint64_t seed = s.draw(1 << 20);
            VP_LOG("%zu small entries, seed %lu", n, (unsigned long)seed);
            for(size_t k = 0; k < n; ++k) {
                uint64_t r = mix(seed + k);
                F f = rb.variable(vars[r % vars.size()]), g = rb.variable(vars[(r >> 16) % vars.size()]);
                switch((r >> 32) % 5) { case 0: break; case 1: f = rb.neg(f); break; case 2: f = rb.disj(f, rb.neg(g)); break; case 3: f = rb.exor(f, g); break; default: f = rb.conj(f, g); }
                size_t nr = col.add_bdd(in_manager(f));
                VP_CHECK(nr == model.size(), "add_bdd: returned index %zu, expected %zu", nr, model.size());
                model.push_back(f);
            }
            check_all("many small entries");
            max_entries = std::max(max_entries, model.size() + 20);
            label(n > 512 ? "more than 512 entries" : n > 200 ? "more than 200 entries" : "60 to 200 entries");
        }
        if(large_one_in != 0 && hash_mode() <= HASH_SEEDED && s.chance(1, large_one_in)) {
            static const size_t sizes[] = {300, 1200, 4000, 12000, 130000};
            large = true;
            size_t layers = s.range(14, 40);
            while(vars.size() < layers) vars.push_back(vars.back() + 1);
            max_nodes = 200000;
            for(unsigned k = s.range(1, 3); k > 0 && spent < 60000; --k) {
                size_t want = sizes[s.pick({8, 12, 12, 8, 3})];
                op_add(layered_function(rb, vars, want, s.draw(1 << 20)));
                size_t n = rb.size(model.back());
                spent += n;
                if(k == 1 && n > 1000 && n < 60000 && s.chance(1, 3)) { // the same again and again, until the stored nodes need more than 16 bits
                    F f = model.back();
                    node_ref h = in_manager(f);
                    for(size_t c = 66000 / n; c > 0; --c) { size_t nr = col.add_bdd(h); VP_CHECK(nr == model.size(), "add_bdd: returned index %zu, expected %zu", nr, model.size()); model.push_back(f); }
                    max_entries = std::max(max_entries, model.size() + 10);
                    check_all("the same diagram stored many times");
                    label("more than 65536 stored nodes");
                }
                label(n > 65536 ? "entry above 65536 nodes" : n > 8000 ? "entry above 8000 nodes" : n > 1000 ? "entry above 1000 nodes" : "layered entry");
            }
        }
    }
    // the work of combining two functions follows the product of the sizes
    bool cheap(F f, F g) const { return !large || double(rb.size(f)) * rb.size(g) < 3e5; }

    size_t nr_vars() const { return vars.back() + 1; }
    std::vector<Content> snapshot() const { std::vector<Content> r; for(size_t i = 0; i < model.size(); ++i) r.push_back(content(col, i)); return r; }
    void unchanged(const std::vector<Content>& snap, const char* what)
    {
        for(size_t i = 0; i < snap.size(); ++i) { compared(); spent += snap[i].size(); if(content(col, i) != snap[i]) fail("%s: entry %zu changed", what, i); }
    }
    void count(const char* what) { VP_CHECK(col.nr_bdds() == model.size() && col.size() == model.size(), "%s: %zu entries, expected %zu", what, col.nr_bdds(), model.size()); }
    // full check of every entry against the model
    void check_all(const char* what)
    {
        count(what);
        for(size_t i = 0; i < model.size(); ++i) check_entry(rb, col, i, model[i], what);
    }
    void check_queries(size_t nr, const char* what)
    {
        F f = model[nr];
        std::vector<size_t> sup = rb.support(f);
        VP_CHECK(col.variables(nr) == sup, "%s: variables of entry %zu are not the support", what, nr);
        VP_CHECK(col.nr_bdd_nodes(nr) == rb.size(f) + 2, "%s: entry %zu has %zu nodes, expected %zu", what, nr, col.nr_bdd_nodes(nr), rb.size(f) + 2);
        auto e = col[nr];
        VP_CHECK(e.variables() == sup, "%s: variables of entry %zu through its wrapper are not the support", what, nr);
        VP_CHECK(e.nr_nodes() == rb.size(f) + 2, "%s: entry %zu has %zu nodes through its wrapper, expected %zu", what, nr, e.nr_nodes(), rb.size(f) + 2);
        auto per = rb.nodes_per_variable(f);
        spent += rb.size(f) * 6;
        for(size_t v : sup) {
            size_t k = per[v];
            VP_CHECK(col.nr_bdd_nodes(nr, v) == k && e.nr_nodes(v) == k, "%s: entry %zu has %zu/%zu nodes on variable %zu, expected %zu", what, nr, col.nr_bdd_nodes(nr, v), e.nr_nodes(v), v, k);
        }
        for(size_t v : {sup.empty() ? 0 : sup.back() + 1, nr_vars() + 3}) if(!std::binary_search(sup.begin(), sup.end(), v)) VP_CHECK(col.nr_bdd_nodes(nr, v) == 0, "%s: entry %zu has nodes on variable %zu outside its support", what, nr, v);
        size_t nv = std::max(nr_vars(), sup.empty() ? 0 : sup.back() + 1);
        check_entry_evaluation(rb, col, nr, f, nv, ops, 6, what);
    }
    // a new last entry for f
    size_t appended(size_t nr, F f, const std::vector<Content>& before, const char* what)
    {
        ++ops;
        VP_CHECK(nr == model.size(), "%s: returned index %zu, expected %zu", what, nr, model.size());
        model.push_back(f);
        count(what);
        check_entry(rb, col, nr, f, what);
        unchanged(before, what);
        return nr;
    }
    node_ref in_manager(F f)
    {
        std::vector<size_t> sup = rb.support(f);
        while(mgr->nr_variables() < std::max(nr_vars(), sup.empty() ? 0 : sup.back() + 1)) mgr->add_variable();
        return build(rb, *mgr, f);
    }
    F fn(unsigned weight_constants = 1)
    {
        if(!model.empty()) switch(s.pick({6, 1, 1})) {
            case 1: return model[some()];
            case 2: return rb.neg(model[some()]);
            default: break;
        }
        F f = draw_function(s, rb, vars, weight_constants);
        if(!model.empty() && s.chance(1, 4)) {
            F g = model[some()];
            if(cheap(f, g)) {
                F r = s.coin() ? rb.conj(f, g) : rb.disj(f, g);
                if(rb.size(r) <= max_nodes) f = r;
            }
        }
        return f;
    }
    size_t some() { return s.draw(model.size() - 1); }
    bool room() const { return model.size() < max_entries; }

    size_t op_add(F f)
    {
        auto snap = snapshot();
        node_ref h = in_manager(f);
        VP_LOG("add_bdd %s -> %zu", rb.text(f).c_str(), model.size());
        size_t nodes = mgr->nr_nodes();
        size_t nr = col.add_bdd(h);
        VP_CHECK(mgr->nr_nodes() == nodes, "storing a diagram changed the manager's node count");
        { Reader rd(rb); VP_CHECK(rd(h) == f, "storing a diagram changed it"); }
        appended(nr, f, snap, "add_bdd");
        if(f < 2) label("constant stored");
        return nr;
    }
    size_t op_add() { return op_add(fn()); }

    size_t limit_for(F f, bool& refuse)
    {
        size_t n = rb.size(f) + 2, l = SIZE_MAX;
        switch(s.pick({4, 3, 3, 2, 1})) {
            case 0: break;
            case 1: l = n; break;
            case 2: l = n - 1; break;
            case 3: l = n + s.draw(3); break;
            default: l = 3 + s.draw(n); break;
        }
        if(l < 3) l = 3;
        refuse = n > l;
        return l;
    }
    void done(size_t got, F f, bool refuse, size_t limit, const std::vector<Content>& snap, const char* what)
    {
        if(refuse) {
            VP_CHECK(got == std::numeric_limits<size_t>::max(), "%s: returned %zu although the result has %zu nodes and the limit is %zu", what, got, rb.size(f) + 2, limit);
            count(what);
            unchanged(snap, what);
            ++refused;
            label("refused by the node limit");
        } else {
            VP_CHECK(got != std::numeric_limits<size_t>::max(), "%s: refused although the result has %zu nodes and the limit is %zu", what, rb.size(f) + 2, limit);
            if(limit == rb.size(f) + 2) label("result exactly at the node limit");
            appended(got, f, snap, what);
            if(f < 2) label("constant conjunction");
        }
    }
    bool op_and2(bool limits)
    {
        size_t i = some(), j = s.chance(1, 10) ? i : some();
        if(!cheap(model[i], model[j]) && i != j) return false;
        F f = rb.conj(model[i], model[j]);
        if(rb.size(f) > max_nodes) return false;
        bool refuse = false;
        size_t limit = limits ? limit_for(f, refuse) : SIZE_MAX;
        auto snap = snapshot();
        VP_LOG("conjunction of %zu %s and %zu %s, limit %zu", i, rb.text(model[i]).c_str(), j, rb.text(model[j]).c_str(), limit);
        size_t r;
        if(limit == SIZE_MAX) switch(s.pick({3, 1, 1})) {
            case 0: r = col.bdd_and(i, j); break;
            case 1: r = col.bdd_and((int)i, (int)j); label("int form"); break;
            default: { auto a = col[i]; auto b = col[j]; auto c = a & b; r = model.size(); VP_CHECK(col.nr_bdds() == r + 1, "operator&: no entry was appended"); VP_CHECK(c.nr_nodes() == rb.size(f) + 2, "operator&: wrong entry"); label("wrapper form"); }
        } else if(s.coin()) r = col.bdd_and(i, j, limit);
        else r = col.bdd_and((int)i, (int)j, limit);
        done(r, f, refuse, limit, snap, "pairwise conjunction");
        label("pairwise conjunction");
        return true;
    }
    // n entries, result small enough
    std::vector<size_t> draw_range(size_t n, F& f)
    {
        std::vector<size_t> idx;
        f = 1;
        for(size_t k = 0; k < n; ++k) {
            size_t i = some();
            if(large && rb.size(model[i]) > 30 && !idx.empty()) i = idx[s.draw(idx.size() - 1)];
            for(int t = 0; t < 4 && rb.size(rb.conj(f, model[i])) > max_nodes; ++t) i = idx.empty() ? some() : idx[s.draw(idx.size() - 1)];
            if(rb.size(rb.conj(f, model[i])) > max_nodes) i = idx.empty() ? 0 : idx[0];
            idx.push_back(i);
            f = rb.conj(f, model[i]);
        }
        return idx;
    }
    bool op_and_range(bool limits, size_t n)
    {
        F f;
        std::vector<size_t> idx = draw_range(n, f);
        // the library's recursion follows tuples of nodes; keep that product small
        double work = 1;
        std::set<size_t> distinct(idx.begin(), idx.end());
        for(size_t i : distinct) work *= 1 + rb.size(model[i]) / 3.0;
        std::set<size_t> un;
        for(size_t i : distinct) for(size_t v : rb.support(model[i])) un.insert(v);
        const double most = large ? 6e5 / (n + 4) : 3e5;
        if(work > most && un.size() > 13) {
            // keep only small distinct members
            std::vector<size_t> keep;
            double w2 = 1;
            for(size_t i : distinct) { double x = 1 + rb.size(model[i]) / 3.0; if(w2 * x <= most) { w2 *= x; keep.push_back(i); } }
            if(keep.empty()) return false;
            for(size_t k = 0; k < n; ++k) if(std::find(keep.begin(), keep.end(), idx[k]) == keep.end()) idx[k] = keep[k % keep.size()];
            f = 1;
            for(size_t i : idx) f = rb.conj(f, model[i]);
        }
        if(rb.size(f) > max_nodes) return false;
        bool refuse = false;
        size_t limit = limits ? limit_for(f, refuse) : SIZE_MAX;
        auto snap = snapshot();
        VP_LOG("conjunction of %zu entries, limit %zu, result %s", n, limit, rb.text(f).c_str());
        size_t r;
        bool dflt = limit == SIZE_MAX && s.coin();
        switch(s.pick({3, 1, 1})) {
            case 0: r = dflt ? col.bdd_and(idx.begin(), idx.end()) : col.bdd_and(idx.begin(), idx.end(), limit); break;
            case 1: { std::vector<int> vi(idx.begin(), idx.end()); r = dflt ? col.bdd_and(vi.begin(), vi.end()) : col.bdd_and(vi.begin(), vi.end(), limit); break; }
            default: { std::deque<size_t> d(idx.begin(), idx.end()); r = dflt ? col.bdd_and(d.cbegin(), d.cend()) : col.bdd_and(d.cbegin(), d.cend(), limit); }
        }
        if(n == 1) {
            VP_CHECK(r == idx[0], "conjunction of a range of one entry returned %zu instead of that entry %zu", r, idx[0]);
            count("range of one"); unchanged(snap, "range of one");
            label("range of one");
        } else done(r, f, refuse, limit, snap, "range conjunction");
        char b[40]; snprintf(b, sizeof b, "range of %s", n == 1 ? "1" : n == 2 ? "2" : n <= 5 ? "3..5" : n <= 12 ? "6..12" : n <= 30 ? "13..30" : "31..49"); label(b);
        return true;
    }
    // a range of n small entries each of which restricts the result, so that dropping or exchanging any operand shows
    void op_and_essential(bool limits, size_t n)
    {
        size_t first = model.size(), base = s.draw(4), step = s.range(1, 3);
        unsigned kind = s.draw(4);
        auto var = [&](size_t k) { return rb.variable(base + step * k); };
        calm_hash_keys(n);
        std::vector<size_t> idx;
        for(size_t k = 0; k < n; ++k) {
            F a = var(k), b = var(k + 1), f;
            switch(kind < 4 ? kind : s.draw(3)) {
                case 0: f = s.coin() ? a : rb.neg(a); break;
                case 1: f = rb.disj(s.coin() ? a : rb.neg(a), s.coin() ? b : rb.neg(b)); break;
                case 2: f = s.coin() ? rb.exor(a, b) : rb.neg(rb.exor(a, b)); break;
                default: f = rb.disj(rb.neg(a), b); // implication
            }
            size_t nr = col.add_bdd(in_manager(f));
            VP_CHECK(nr == model.size(), "add_bdd: returned index %zu, expected %zu", nr, model.size());
            model.push_back(f);
            idx.push_back(nr);
        }
        for(size_t k = n; k > 1; --k) std::swap(idx[k - 1], idx[s.draw(k - 1)]);
        if(s.chance(1, 4)) idx[s.draw(n - 1)] = some(); // possibly a repetition, possibly another entry
        F f = 1;
        bool small = true;
        for(size_t i : idx) { f = rb.conj(f, model[i]); if(rb.size(f) > max_nodes) small = false; }
        if(small) {
            bool refuse = false;
            size_t limit = limits ? limit_for(f, refuse) : SIZE_MAX;
            auto snap = snapshot();
            VP_LOG("conjunction of %zu small entries, limit %zu, result %s", n, limit, rb.text(f).c_str());
            size_t r = col.bdd_and(idx.begin(), idx.end(), limit);
            if(n == 1) { VP_CHECK(r == idx[0], "conjunction of a range of one entry returned %zu instead of that entry %zu", r, idx[0]); count("range of one"); unchanged(snap, "range of one"); }
            else done(r, f, refuse, limit, snap, "range conjunction");
            label(n <= 9 ? "every operand matters, up to 9" : n <= 30 ? "every operand matters, 10..30" : "every operand matters, 31..49");
        }
        if(n > 4 || s.coin()) {
            std::vector<size_t> rem;
            for(size_t k = 0; k < n; ++k) rem.push_back(first + k);
            col.remove(rem.begin(), rem.end());
            model.erase(model.begin() + first, model.begin() + first + n);
            check_all("after removal");
        }
    }
    size_t draw_range_length() { switch(s.pick({5, 3, 3, 2, 1, 1})) { case 0: return s.range(2, 4); case 1: return s.range(5, 9); case 2: return s.range(10, 20); case 3: return s.range(21, 49); case 4: return 1; default: return s.coin() ? 49 : 2; } }
    void op_bad_range()
    {
        size_t n = 50 + s.draw(10);
        std::vector<size_t> idx;
        for(size_t k = 0; k < n; ++k) idx.push_back(some());
        auto snap = snapshot();
        VP_LOG("conjunction of a range of %zu entries", n);
        bool threw = false;
        try { col.bdd_and(idx.begin(), idx.end()); } catch(const std::exception&) { threw = true; }
        VP_CHECK(threw, "a range of %zu entries was accepted", n);
        count("unsupported range"); unchanged(snap, "unsupported range");
        label("unsupported range length");
    }
    bool op_or_var(bool wide)
    {
        size_t i = some();
        std::vector<size_t> cand = vars;
        for(size_t v : rb.support(model[i])) if(v > 0 && !std::binary_search(vars.begin(), vars.end(), v - 1) && cand.size() < 60) cand.push_back(v - 1); // between the levels
        if(wide) { cand.push_back(vars.back() + 1 + s.draw(5)); cand.push_back(vars.back() + 10); }
        std::set<size_t> pos, neg;
        size_t np = s.pick({1, 3, 3, 1}), nn = s.pick({1, 3, 3, 1});
        if(np == 3) np = s.range(3, 8);
        if(nn == 3) nn = s.range(3, 8);
        if(s.chance(1, 25)) { // many literals
            for(size_t v = s.draw(nr_vars()), k = s.range(20, 90); k > 0; --k) { cand.push_back(v); v += 1 + s.draw(1); }
            np = s.draw(60); nn = s.draw(60);
        }
        for(size_t k = 0; k < np; ++k) pos.insert(cand[s.draw(cand.size() - 1)]);
        bool compl_ = s.chance(1, 8);
        for(size_t k = 0; k < nn; ++k) { size_t v = cand[s.draw(cand.size() - 1)]; if(compl_ || !pos.count(v)) neg.insert(v); }
        bool very_many = !large && s.chance(1, 150);
        if(very_many) { // hundreds of literals
            uint64_t seed = s.draw(1 << 20), v = s.draw(nr_vars());
            size_t gap = s.range(1, 3);
            for(size_t k = s.range(250, 700); k > 0; --k, v += 1 + mix(seed + v) % gap) (mix(seed + 7 * v) & 1 ? pos : neg).insert(v);
            if(!compl_) for(size_t v : pos) neg.erase(v);
        }
        std::map<size_t, int> clause;
        for(size_t v : pos) clause[v] |= 1;
        for(size_t v : neg) clause[v] |= 2;
        F f = 0;
        for(auto it = clause.rbegin(); it != clause.rend(); ++it) f = it->second == 1 ? rb.mk(it->first, f, 1) : it->second == 2 ? rb.mk(it->first, 1, f) : 1;
        f = rb.disj(model[i], f);
        if(rb.size(f) > (very_many ? 20000 : max_nodes)) return false;
        std::string t;
        for(size_t v : pos) t += " " + std::to_string(v);
        for(size_t v : neg) t += " !" + std::to_string(v);
        VP_LOG("entry %zu %s or literals%s", i, rb.text(model[i]).c_str(), t.c_str());
        auto snap = snapshot();
        size_t r;
        switch(s.pick({2, 2, 1})) {
            case 0: r = col.bdd_or_var(i, pos, neg); break;
            case 1: r = col.bdd_or_var(i, std::unordered_set<size_t>(pos.begin(), pos.end()), std::unordered_set<size_t>(neg.begin(), neg.end())); break;
            default: r = col.bdd_or_var(i, std::set<size_t, std::greater<size_t>>(pos.begin(), pos.end()), std::set<size_t, std::greater<size_t>>(neg.begin(), neg.end()));
        }
        appended(r, f, snap, "disjunction with literals");
        bool in = false, above = false, below = false, compl2 = false;
        std::vector<size_t> sup = rb.support(model[i]);
        for(size_t v : pos) { if(std::binary_search(sup.begin(), sup.end(), v)) in = true; if(neg.count(v)) compl2 = true; }
        for(size_t v : neg) if(std::binary_search(sup.begin(), sup.end(), v)) in = true;
        if(!sup.empty()) { for(auto* st : {&pos, &neg}) for(size_t v : *st) { if(v < sup.front()) above = true; if(v > sup.back()) below = true; } }
        if(in) label("literal inside the support");
        if(pos.size() + neg.size() > 20) label("more than 20 literals");
        if(pos.size() + neg.size() > 60) label(pos.size() + neg.size() > 255 ? "more than 255 literals" : "more than 60 literals");
        if(above) label("literal above the root");
        if(below) label("literal below the support");
        if(compl2) label("complementary literals");
        if(pos.empty() && neg.empty()) label("no literals");
        if(model[i] < 2) label("disjunction of a constant");
        return true;
    }
    void op_remove(int how)
    {
        std::vector<size_t> rem;
        size_t n = model.size();
        switch(how) {
            case 0: { uint64_t m = s.draw(UINT32_MAX); for(size_t i = 0; i < n; ++i) if((mix(m + i) % 4) == 0) rem.push_back(i); break; }
            case 1: rem.push_back(s.draw(n - 1)); break;
            case 2: rem.push_back(0); break;
            case 3: rem.push_back(n - 1); break;
            case 4: break;
            case 5: { size_t a = s.draw(n - 1), b = s.range(a, n - 1); for(size_t i = a; i <= b; ++i) rem.push_back(i); break; }
            case 6: for(size_t i = 0; i < n; ++i) if(i != n / 2) rem.push_back(i); break;
            case 8: for(size_t i = 0; i < n; ++i) if(rb.size(model[i]) > 300) rem.push_back(i); break;
            default: for(size_t i = 0; i < n; ++i) rem.push_back(i);
        }
        static const char* nm[] = {"removed some", "removed one", "removed the first", "removed the last", "removed none", "removed a block", "removed all but one", "removed all", "removed the large ones"};
        label(nm[how]);
        auto snap = snapshot();
        VP_LOG("%s (%zu of %zu)", nm[how], rem.size(), n);
        if(s.coin()) col.remove(rem.begin(), rem.end());
        else { std::vector<int> ri(rem.begin(), rem.end()); col.remove(ri.begin(), ri.end()); }
        std::vector<F> m2; std::vector<Content> s2;
        for(size_t i = 0; i < n; ++i) if(!std::binary_search(rem.begin(), rem.end(), i)) { m2.push_back(model[i]); s2.push_back(snap[i]); }
        model.swap(m2);
        ++ops;
        removed += rem.size();
        count("removal");
        unchanged(s2, "removal");
        check_all("after removal");
    }
    // increasing images for the support of a function
    std::map<size_t, size_t> draw_map(const std::vector<size_t>& sup, size_t maxvar)
    {
        std::map<size_t, size_t> mp;
        if(sup.empty()) return mp;
        switch(s.pick({3, 3, 3, 2})) {
            case 0: { size_t d = s.range(1, 5); if(sup.back() + d > maxvar) d = 0; for(size_t v : sup) mp[v] = v + d; break; }
            case 1: for(size_t j = 0; j < sup.size(); ++j) mp[sup[j]] = j; break;
            case 2: { size_t c = s.draw(5); for(size_t v : sup) { mp[v] = c; c += 1 + s.draw(2); } break; }
            default: { size_t d = s.draw(sup[0]); for(size_t v : sup) mp[v] = v - d; }
        }
        return mp;
    }
    bool op_rebase()
    {
        size_t i = some();
        std::vector<size_t> sup = rb.support(model[i]);
        std::map<size_t, size_t> mp = draw_map(sup, nr_vars() + 40);
        F f = rb.rename(model[i], [&](uint64_t v) { return mp[v]; });
        auto snap = snapshot();
        std::map<size_t, size_t> ext = mp;
        if(s.coin()) for(unsigned k = s.range(1, 4); k > 0; --k) { size_t v = s.draw(nr_vars() + 5); if(!ext.count(v)) ext[v] = s.draw(nr_vars() + 5); }
        bool wrapper = s.coin(), vec = s.coin();
        VP_LOG("rename entry %zu %s, %s form%s", i, rb.text(model[i]).c_str(), vec ? "vector" : "map", wrapper ? " through the wrapper" : "");
        if(vec) {
            size_t len = ext.empty() ? s.draw(2) : ext.rbegin()->first + 1 + s.draw(2);
            std::vector<size_t> v(len);
            for(size_t j = 0; j < len; ++j) v[j] = mix(j) % 7;
            for(auto [x, y] : ext) v[x] = y;
            if(s.coin()) { if(wrapper) col[i].rebase(v.begin(), v.end()); else col.rebase(i, v.begin(), v.end()); }
            else { std::deque<size_t> vi(v.begin(), v.end()); if(wrapper) { auto e = col[i]; e.rebase(vi.begin(), vi.end()); } else col.rebase(i, vi.begin(), vi.end()); }
            label("vector form");
        } else if(s.coin()) { if(wrapper) { auto e = col[i]; e.rebase(ext); } else col.rebase(i, ext); label("map form"); }
        else { std::unordered_map<size_t, size_t> u(ext.begin(), ext.end()); if(wrapper) { auto e = col[i]; e.rebase(u); } else col.rebase(i, u); label("map form"); }
        if(wrapper) label("through the wrapper");
        ++ops;
        model[i] = f;
        count("renaming an entry");
        check_entry(rb, col, i, f, "renamed entry");
        std::vector<Content> others = snapshot();
        for(size_t j = 0; j < others.size(); ++j) if(j != i) { compared(); if(others[j] != snap[j]) fail("renaming entry %zu changed entry %zu", i, j); }
        // the renamed entry keeps its arcs
        compared();
        for(size_t k = 0; k < snap[i].size(); ++k) if(others[i].size() != snap[i].size() || others[i][k][1] != snap[i][k][1] || others[i][k][2] != snap[i][k][2]) fail("renaming entry %zu changed its arcs", i);
        return true;
    }
    // images far beyond what any manager could hold: entries are only data
    void op_rebase_far()
    {
        size_t i = some();
        std::vector<size_t> sup = rb.support(model[i]);
        static const size_t at[] = {65535, (1u << 31) - 2, 0xfffffffeu, size_t(1) << 32, size_t(1) << 40, (size_t(1) << 53) - 1, size_t(1) << 62};
        std::map<size_t, size_t> mp, inv;
        size_t split = s.draw(sup.size()), c = at[s.draw(6)];
        for(size_t k = 0; k < sup.size(); ++k) { size_t y = k < split ? k : c; if(k >= split) c += s.coin() ? 1 : 1 + s.draw(1u << 20); mp[sup[k]] = y; inv[y] = sup[k]; }
        F f = rb.rename(model[i], [&](uint64_t v) { return mp[v]; });
        VP_LOG("rename entry %zu %s far away", i, rb.text(model[i]).c_str());
        auto snap = snapshot();
        unsigned way = s.pick({2, 2, 1});
        if(way == 2 && !sup.empty() && sup.back() < 100000) { // by position
            std::vector<size_t> v(sup.back() + 1, size_t(7) << 50);
            for(auto [x, y] : mp) v[x] = y;
            if(s.coin()) col.rebase(i, v.begin(), v.end()); else { auto e = col[i]; e.rebase(v.begin(), v.end()); }
            label("renamed beyond 32 bits by position");
        }
        else if(way == 0) col.rebase(i, mp); else { std::unordered_map<size_t, size_t> u(mp.begin(), mp.end()); auto e = col[i]; e.rebase(u); }
        check_entry(rb, col, i, f, "entry renamed far away");
        VP_CHECK(col.variables(i) == rb.support(f), "variables of an entry renamed far away are not the support");
        auto per = rb.nodes_per_variable(f);
        for(size_t v : rb.support(f)) VP_CHECK(col.nr_bdd_nodes(i, v) == per[v], "entry renamed far away has %zu nodes on variable %zu, expected %zu", col.nr_bdd_nodes(i, v), v, per[v]);
        // combined with itself and literals there, then removed again
        size_t n = model.size();
        if(s.coin()) {
            size_t r = col.bdd_and(i, i);
            VP_CHECK(r == n, "conjunction returned %zu, expected %zu", r, n);
            check_entry(rb, col, r, f, "conjunction of an entry renamed far away with itself");
            col.remove(&r, &r + 1);
        }
        if(s.coin() && !sup.empty()) {
            size_t v = mp[sup.back()] + s.draw(1);
            std::set<size_t> pos{v}, none;
            size_t r = col.bdd_or_var(i, pos, none);
            VP_CHECK(r == n, "bdd_or_var returned %zu, expected %zu", r, n);
            check_entry(rb, col, r, rb.disj(f, rb.variable(v)), "disjunction of an entry renamed far away with a literal");
            col.remove(&r, &r + 1);
        }
        col.rebase(i, inv);
        count("renaming far away and back");
        unchanged(snap, "renaming far away and back");
        ++ops;
        label("renamed beyond 32 bits and back");
    }
    // bring an entry back into some manager and compare with its canonical diagram
    void check_export(size_t nr, bdd_mgr& m, const char* what)
    {
        F f = model[nr];
        std::vector<size_t> sup = rb.support(f);
        size_t need = sup.empty() ? 0 : sup.back() + 1;
        node_ref h;
        bool direct = s.coin();
        if(direct) { while(m.nr_variables() < need) m.add_variable(); h = col.export_bdd(m, nr); }
        else h = m.add_bdd(col, nr);
        char w[100]; snprintf(w, sizeof w, "%s: entry %zu by %s", what, nr, direct ? "export_bdd" : "bdd_mgr::add_bdd");
        check_denotes(rb, h, f, w);
        while(m.nr_variables() < need) m.add_variable();
        VP_CHECK(build(rb, m, f) == h, "%s: not the canonical handle", w);
        VP_CHECK(f < 2 || h.find_bdd_mgr() == &m, "%s: the result belongs to another manager", w);
    }
};

}
