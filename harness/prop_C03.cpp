// C03: garbage collection never changes live diagrams or later results. Oracle: node lists of every held handle
// before and after, the reference package for everything computed later.
#include "model.h"
using namespace vp;

struct Rec { int k; F a, b, c; };

static std::vector<std::array<size_t, 4>> snapshot(const std::vector<Item>& pool)
{
    std::vector<std::array<size_t, 4>> v;
    for(const Item& i : pool) {
        node_ref h = i.h;
        v.push_back({(size_t)h.address(), 0, 0, 0});
    }
    std::vector<node_ref> roots;
    for(const Item& i : pool) roots.push_back(i.h);
    for(node_ref x : reachable(roots)) { node_ref l = x.low(), u = x.high(); v.push_back({(size_t)x.address(), x.variable(), (size_t)l.address(), (size_t)u.address()}); }
    return v;
}

// Thousands of results of one operation with a common operand; then that operand, or results, go and something else takes
// their place in memory, while all other operands stay. Every operation is done again afterwards.
static void many_cached_results(World& w, Src& s)
{
    bdd_mgr& m = *w.mgr;
    RB& rb = w.rb;
    static const size_t sizes[] = {300, 3000, 20000, 90000};
    size_t n = sizes[s.pick({6, 6, 3, 2})], from = m.nr_variables();
    int op = s.draw(4), who = s.draw(3); // who goes: 0 the common operand, 1 some results, 2 both, 3 nothing
    uint64_t seed = s.draw(1 << 20);
    HashMode hm = hash_mode();
    VP_LOG("%zu cached results of operation %d, kind %d, seed %lu", n, op, who, (unsigned long)seed);
    m.projection(from + 12);
    // all functions of the last two variables are held
    std::vector<Item> low{w.constant(false), w.constant(true)};
    for(size_t v = from + 12; v > from + 10; --v) { std::vector<Item> c = low; for(auto& l : low) for(auto& u : low) if(l.f != u.f) c.push_back(Item{m.unique_find(v, l.h, u.h), rb.mk(v, l.f, u.f)}); low.swap(c); }
    auto common = [&](uint64_t salt) { // one new node on the variable above them, always with the same hash key
        for(uint64_t k = 0;; ++k) {
            uint64_t r = mix(seed + salt * 7919 + k);
            const Item& l = low[r % low.size()]; const Item& u = low[(r >> 20) % low.size()];
            if(l.f == u.f) continue;
            size_t before = m.nr_nodes();
            uint64_t state = hash_state();
            set_hash_mode(HASH_CONST, 1);
            node_ref h = m.unique_find(from + 10, l.h, u.h);
            set_hash_mode(hm, 1); hash_state() = state;
            if(m.nr_nodes() == before + 1 || k > 300) return Item{h, rb.mk(from + 10, l.f, u.f)};
        }
    };
    std::vector<Item> base = low, top;
    for(size_t v = from + 9; v > from + 4; --v) for(size_t k = 0, below = base.size(); k < 80; ++k) { uint64_t r = mix(seed * 3 + v * 1009 + k); Item l = base[r % below], u = base[(r >> 20) % below]; if(l.f != u.f) base.push_back(Item{m.unique_find(v, l.h, u.h), rb.mk(v, l.f, u.f)}); }
    for(size_t k = 0; k < n; ++k) { uint64_t r = mix(seed * 5 + k); size_t v = from + k % 5; const Item& l = base[r % base.size()]; const Item& u = base[(r >> 20) % base.size()]; if(l.f != u.f) top.push_back(Item{m.unique_find(v, l.h, u.h), rb.mk(v, l.f, u.f)}); }
    Item third = base[base.size() / 2];
    auto all = [&](const Item& f, const char* what) {
        std::vector<node_ref> r;
        Reader rd(rb);
        for(const Item& g : top) {
            F e; node_ref h;
            switch(op) {
                case 0: h = m.and_rec(f.h, g.h); e = rb.conj(f.f, g.f); break;
                case 1: h = m.or_rec(g.h, f.h); e = rb.disj(f.f, g.f); break;
                case 2: h = m.xor_rec(f.h, g.h); e = rb.exor(f.f, g.f); break;
                case 3: h = m.ite_rec(g.h, f.h, third.h); e = rb.ite(g.f, f.f, third.f); break;
                default: h = m.ite_rec(g.h, third.h, f.h); e = rb.ite(g.f, third.f, f.f);
            }
            F got = rd(h);
            if(got != e) fail("%s: operation %d on %s and %s gives %s, expected %s", what, op, rb.text(f.f).c_str(), rb.text(g.f).c_str(), rb.text(got).c_str(), rb.text(e).c_str());
            r.push_back(h);
        }
        compared(r.size());
        return r;
    };
    Item f = common(0);
    std::vector<node_ref> keep = all(f, "operation with a common operand");
    node_ref old = f.h; void* at = old.address(); old = node_ref();
    for(unsigned round = 1; round <= 3; ++round) {
        if(who == 1 || who == 2) { std::vector<node_ref> k; for(size_t i = 0; i < keep.size(); ++i) if(mix(seed + i + round) % 3 != 0) k.push_back(keep[i]); keep.swap(k); }
        if(who == 0 || who == 2) f = Item{};
        m.collect_garbage(); ++w.gcs;
        if(who == 0 || who == 2) f = common(round);
        if(f.h.address() == at) label("another node in place of a common operand");
        std::vector<node_ref> r = all(f, "operation with a common operand after a collection");
        if(who == 0) keep.insert(keep.end(), r.begin(), r.end()); else keep.swap(r);
        if(keep.size() > 4 * n) keep.clear();
    }
    label(n > 65536 ? "more than 65536 cached results" : n > 10000 ? "more than 10000 cached results" : "300 to 3000 cached results");
}

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({5, 4, 2, 2});
    static const size_t maxvars[] = {5, 9, 20, 13};
    World w(s, draw_variables(s, maxvars[profile]));
    w.max_nodes = 8000;
    w.huge_one_in = 60;
    w.start();
    std::vector<Rec> past; // operations done before collections
    auto find = [&](F f) -> const Item* { for(const Item& i : w.pool) if(i.f == f) return &i; return nullptr; };
    auto exec = [&](Rec r, const char* what) {
        auto get = [&](F f) { if(f < 2) return w.constant(f).h; const Item* i = find(f); return i ? i->h : build(w.rb, *w.mgr, f); };
        node_ref a = get(r.a), b = get(r.b), c = r.k == 4 ? get(r.c) : b;
        node_ref h; F f;
        switch(r.k) {
            case 0: h = w.mgr->and_rec(a, b); f = w.rb.conj(r.a, r.b); break;
            case 1: h = w.mgr->or_rec(a, b); f = w.rb.disj(r.a, r.b); break;
            case 2: h = w.mgr->xor_rec(a, b); f = w.rb.exor(r.a, r.b); break;
            case 3: h = w.mgr->negate(a); f = w.rb.neg(r.a); break;
            case 4: h = w.mgr->ite_rec(a, b, c); f = w.rb.ite(r.a, r.b, r.c); break;
            default: { auto [x, n] = w.mgr->and_rec_limited(a, b, 1u << 20); h = x; f = w.rb.conj(r.a, r.b); VP_CHECK(x.address() != nullptr && n == w.rb.size(f), "limited conjunction after a collection: count %zu, expected %zu", n, w.rb.size(f)); }
        }
        w.result(h, f, what);
    };
    if(!w.huge && hash_mode() <= HASH_SEEDED && s.chance(1, 60)) many_cached_results(w, s);
    size_t steps = s.range(4, w.huge ? 16 : 50), collected = 0, after = 0;
    for(size_t i = 0; i < steps; ++i) {
        switch(s.pick({36, 12, 15, 12, 6, 3, profile == 3 ? 12u : 3u, 3, 3, 1})) {
            case 0: {
                Rec r{(int)s.draw(5), w.operand().f, w.operand().f, w.operand().f};
                VP_LOG("op %d on %s %s %s", r.k, w.rb.text(r.a).c_str(), w.rb.text(r.b).c_str(), w.rb.text(r.c).c_str());
                exec(r, w.gcs > 0 ? "operation after a collection" : "operation");
                past.push_back(r);
                if(w.gcs) ++after;
                break;
            }
            case 1: w.op_drop(); break;
            case 2: {
                auto before = snapshot(w.pool);
                size_t nb = w.mgr->nr_nodes();
                w.op_gc();
                auto now = snapshot(w.pool);
                compared(now.size());
                if(before != now) fail("a collection changed the nodes of held diagrams");
                if(w.mgr->nr_nodes() < nb) ++collected;
                // every held function is found again as that handle
                for(size_t j = 0; j < w.pool.size(); ++j) {
                    node_ref h = build(w.rb, *w.mgr, w.pool[j].f);
                    VP_CHECK(h == w.pool[j].h, "a function held across a collection is rebuilt as another handle");
                }
                // recompute earlier operations: their cached results may be gone
                for(unsigned n = s.draw(6); n > 0 && !past.empty(); --n) { Rec r = past[past.size() - 1 - s.draw(std::min<size_t>(past.size() - 1, 15))]; exec(r, "operation repeated after a collection"); ++after; label("repeated operation after collection"); }
                break;
            }
            case 3: if(!past.empty()) { exec(past[s.draw(past.size() - 1)], "repeated operation"); } break;
            case 4: w.op_unique_find(); break;
            case 5: w.op_copy(); break;
            case 6: w.op_dense(profile == 3 ? 12 : 8); break;
            case 7: w.op_addvar(); break;
            case 9: { // many collections, each after a little work
                unsigned n = s.range(5, w.huge ? 8 : 80);
                VP_LOG("%u rounds of one operation and a collection", n);
                for(unsigned j = 0; j < n; ++j) {
                    if(s.coin()) exec(Rec{(int)s.draw(3), w.operand().f, w.operand().f, 0}, "operation between many collections");
                    else { Item t = w.dense(std::min<size_t>(w.vars.size(), 5), s.draw(30), 0); check_denotes(w.rb, t.h, t.f, "table between many collections"); }
                    if(s.chance(1, 4)) w.op_drop();
                    size_t nb = w.mgr->nr_nodes();
                    w.mgr->collect_garbage();
                    ++w.gcs;
                    if(w.mgr->nr_nodes() < nb) ++collected;
                    if(j % 8 == 7) w.check_pool("during many collections");
                }
                w.check_pool("after many collections");
                if(w.gcs > 40) label("more than 40 collections");
                break;
            }
            default: // shrink the pool to one or two handles
                while(w.pool.size() > 2) { size_t k = w.some(); std::swap(w.pool[k], w.pool.back()); w.pool.pop_back(); }
                VP_LOG("drop all but two handles");
        }
    }
    w.check_pool("at the end of the history");
    w.op_gc();
    w.pool.clear();
    w.mgr->collect_garbage();
    w.push(w.mgr->projection(w.vars[0]), w.rb.variable(w.vars[0]));
    w.op_dense(6);
    w.check_pool("after everything was collected");
    if(collected > 0 && after > 0) nontrivial();
    if(collected > 1) label("several collections that freed nodes");
}

const Property vp::property = {"C03", "histories mixing operations, dropped handles and collections; operations done before a collection are repeated after it; non-trivial: a collection that freed nodes was followed by operations", run, 12500, 2400, 200000, 40000, 20};
