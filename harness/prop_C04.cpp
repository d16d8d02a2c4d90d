// C04: garbage collection reclaims exactly the unreachable nodes; reference counts. Oracle: an independent
// reachability computation from the handles the history holds.
#include "model.h"
#include <list>
using namespace vp;

struct Holder { // handles in many places
    std::vector<Item> pool;
    std::list<std::vector<node_ref>> boxes;
    std::map<int, node_ref> keyed;
    std::unordered_map<node_ref, int> hashed;
    std::vector<std::unique_ptr<node_ref>> owned;
    void each(const std::function<void(const node_ref&)>& f) const
    {
        for(auto& i : pool) f(i.h);
        for(auto& b : boxes) for(auto& h : b) f(h);
        for(auto& [k, h] : keyed) f(h);
        for(auto& [h, k] : hashed) f(h);
        for(auto& p : owned) f(*p);
    }
};

static void check_counts(bdd_mgr& m, const Holder& hold, bool after_gc, const char* when)
{
    std::unordered_map<void*, size_t> expect;
    std::vector<node_ref> roots;
    hold.each([&](const node_ref& h) { if(h.address() != nullptr && !h.is_terminal()) { expect[h.address()]++; } });
    {
        std::unordered_set<void*> r;
        hold.each([&](const node_ref& h) { if(h.address() != nullptr && r.insert(h.address()).second) roots.push_back(h); });
    }
    std::vector<node_ref> nodes = reachable(roots);
    const size_t k = nodes.size();
    if(!after_gc) return;
    VP_CHECK(m.nr_nodes() == k + 2, "%s: manager holds %zu nodes, %zu decision nodes are reachable from handles", when, m.nr_nodes(), k);
    std::unordered_map<void*, size_t> arcs;
    for(node_ref& x : nodes) { arcs[x.low().address()]++; arcs[x.high().address()]++; }
    std::unordered_set<void*> rootset;
    for(node_ref& x : roots) rootset.insert(x.address());
    for(node_ref& x : nodes) {
        // our own vectors hold one more (nodes) or two more (nodes, roots)
        size_t want = expect[x.address()] + arcs[x.address()] + 1 + rootset.count(x.address());
        VP_CHECK(x.reference_count() == want, "%s: reference count %zu, but %zu handles and %zu arcs", when, x.reference_count() - 1 - rootset.count(x.address()), expect[x.address()], arcs[x.address()]);
    }
}

static node_ref pass_through(node_ref h) { node_ref local = h; return local; }
static node_ref move_out(std::vector<node_ref>& v) { node_ref r = std::move(v.back()); v.pop_back(); return r; }

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({5, 4, 1, 2});
    static const size_t maxvars[] = {5, 8, 30, 13};
    World w(s, draw_variables(s, maxvars[profile]), false);
    w.max_nodes = 20000;
    w.huge_one_in = 60;
    w.start();
    Holder hold;
    hold.pool.swap(w.pool);
    std::unordered_set<void*> seen; // addresses of nodes ever seen
    size_t peak = w.mgr->nr_nodes();
    auto watch = [&]() { peak = std::max(peak, w.mgr->nr_nodes()); VP_CHECK(seen.size() + 2 <= peak, "%zu different node addresses were used although at most %zu nodes existed at any time", seen.size() + 2, peak); };
    auto pick = [&]() -> node_ref { if(hold.pool.empty()) return w.mgr->projection(w.vars[0]); return hold.pool[s.draw(hold.pool.size() - 1)].h; };
    size_t steps = s.range(3, w.huge ? 14 : 45), freed = 0, moves = 0;
    for(size_t i = 0; i < steps; ++i) {
        switch(s.pick({8, 3, 5, 4, 3, 3, 3, 3, 2, 2, profile == 3 ? 6u : 1u})) {
            case 0: { // operations
                w.pool.swap(hold.pool);
                if(w.pool.empty()) w.pool.push_back({w.mgr->projection(w.vars[0]), w.rb.variable(w.vars[0])});
                switch(s.pick({5, 1, 2, 1, 1, 1})) { case 0: w.op_binary(); break; case 1: w.op_negate(); break; case 2: w.op_ite(); break; case 3: w.op_unique_find(); break; case 4: w.op_counting(); break; default: w.op_dense(7); }
                w.pool.swap(hold.pool);
                break;
            }
            case 1: // drop some
                for(unsigned n = s.range(1, 6); n > 0 && !hold.pool.empty(); --n) { size_t k = s.draw(hold.pool.size() - 1); std::swap(hold.pool[k], hold.pool.back()); hold.pool.pop_back(); }
                VP_LOG("drop handles");
                break;
            case 2: { // collect
                size_t before = w.mgr->nr_nodes();
                peak = std::max(peak, before);
                VP_LOG("collect_garbage");
                w.mgr->collect_garbage();
                VP_CHECK(w.mgr->nr_nodes() <= before, "a collection raised the node count");
                freed += w.mgr->nr_nodes() < before;
                check_counts(*w.mgr, hold, true, "after a collection");
                Reader rd(w.rb);
                for(auto& it : hold.pool) VP_CHECK(rd(it.h) == it.f, "a held handle changed its function in a collection");
                if(s.chance(1, 3)) { w.mgr->collect_garbage(); check_counts(*w.mgr, hold, true, "after a second collection"); }
                break;
            }
            case 3: { // boxes: growing, erasing, copying vectors
                std::vector<node_ref> v;
                for(unsigned n = s.range(1, 9); n > 0; --n) v.push_back(pick());
                if(s.chance(1, 250)) { // very many handles of one node
                    size_t n = s.pick({3, 3, 1}); n = n == 0 ? s.range(250, 400) : n == 1 ? s.range(4000, 9000) : s.range(65500, 66000);
                    v.insert(v.end(), n, pick());
                    label(n > 60000 ? "more than 60000 handles of one node" : n > 3000 ? "more than 3000 handles of one node" : "more than 250 handles of one node");
                }
                v.resize(v.size() + 2);
                if(v.size() > 3) v.erase(v.begin() + 1);
                v.insert(v.begin(), pick());
                std::reverse(v.begin(), v.end());
                std::rotate(v.begin(), v.begin() + v.size() / 2, v.end());
                hold.boxes.push_back(v);
                if(s.coin()) hold.boxes.push_back(std::move(v));
                VP_LOG("vector of handles"); ++moves; label("handles in vectors");
                break;
            }
            case 4: if(!hold.boxes.empty()) { // assign between boxes, drop boxes
                auto it = hold.boxes.begin(); std::advance(it, s.draw(hold.boxes.size() - 1));
                switch(s.draw(3)) {
                    case 0: hold.boxes.erase(it); break;
                    case 1: *it = hold.boxes.front(); break;
                    case 2: std::swap(*it, hold.boxes.back()); break;
                    default: if(!it->empty()) { node_ref r = move_out(*it); hold.keyed[s.draw(5)] = r; } break;
                }
                VP_LOG("boxes rearranged"); ++moves; }
                break;
            case 5: { // assignments
                node_ref a = pick(), b = pick();
                node_ref& ra = a;
                switch(s.draw(6)) {
                    case 0: a = ra; break;
                    case 1: a = b; b = a; break;
                    case 2: std::swap(a, b); break;
                    case 3: { node_ref c(std::move(a)); a = c; break; }
                    case 4: { node_ref c; c = a; a = node_ref(); a = c; c = node_ref(nullptr); break; }
                    case 5: a = pass_through(a); b = pass_through(pass_through(b)); break;
                    default: { node_ref c = a.is_terminal() ? a : a.low(); c = c; node_ref d = a.is_terminal() ? a : a.high(); d = c; a = d; }
                }
                hold.keyed[s.draw(6)] = a;
                VP_LOG("assignments"); ++moves; label("assignments");
                break;
            }
            case 6: hold.hashed.emplace(pick(), 1); if(s.chance(1, 4)) hold.hashed.clear(); VP_LOG("hash map"); break;
            case 7: if(s.chance(2, 3)) hold.owned.emplace_back(new node_ref(pick())); else if(!hold.owned.empty()) hold.owned.erase(hold.owned.begin() + s.draw(hold.owned.size() - 1)); VP_LOG("owned handle"); break;
            case 8: { // queries that hand out handles, kept or dropped
                node_ref h = pick();
                auto po = h.nodes_postorder(), bf = h.nodes_bfs();
                if(s.coin() && !po.empty() && hold.boxes.size() < 6) hold.boxes.push_back(po);
                (void)h.variables(); (void)h.nr_nodes();
                VP_LOG("traversals"); label("handles from traversals");
                break;
            }
            case 9: { // refused and successful limited conjunctions
                node_ref a = pick(), b = pick();
                auto r = w.mgr->and_rec_limited(a, b, s.draw(12));
                auto r2 = w.mgr->and_rec_limited(a, b, 1u << 20);
                if(s.coin()) hold.keyed[s.draw(6)] = std::get<0>(r2);
                VP_LOG("limited conjunctions");
                break;
            }
            default: { // a large temporary diagram
                size_t k = s.range(4, 12); uint64_t sd = s.draw(1 << 20);
                VP_LOG("temporary table of %zu variables", k);
                Item t = w.dense(k, sd, 0);
                for(node_ref x : reachable({t.h})) seen.insert(x.address());
                if(s.chance(1, 3)) hold.pool.push_back(t);
                label("large temporary");
                break;
            }
        }
        { std::vector<node_ref> roots; hold.each([&](const node_ref& h) { roots.push_back(h); }); for(node_ref x : reachable(roots)) seen.insert(x.address()); }
        watch();
    }
    w.mgr->collect_garbage();
    check_counts(*w.mgr, hold, true, "after the final collection");
    hold = Holder();
    w.mgr->collect_garbage();
    VP_CHECK(w.mgr->nr_nodes() == 2, "no handle is left but the manager holds %zu nodes", w.mgr->nr_nodes());
    // reuse
    Item t = w.dense(6, 5, 0);
    check_denotes(w.rb, t.h, t.f, "rebuilt after everything was collected");
    if(freed > 0 && moves > 0) nontrivial();
}

const Property vp::property = {"C04", "histories in which handles are copied, assigned, moved and kept in containers between operations and collections; after each collection node count and every reference count are recomputed independently; non-trivial: a collection freed nodes and handles were moved around", run, 15000, 3000, 250000, 50000, 20};
