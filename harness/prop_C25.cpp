// C25: running out of memory. Faults: requests for memory made inside a library call fail, one of them or all from one on.
// Oracle: the model of handles and entries from before the call; every block obtained inside a call, until it is given back.
#include "colworld.h"
#include "bdd_node_depth.h"
#include <new>
#include <cstdlib>
#include <unordered_map>
using namespace vp;

static bool g_inside = false;   // in a library call
static long g_left = -1;        // requests until the first that fails, -1: none fails
static bool g_all = false;      // all later requests fail as well
static size_t g_requests = 0, g_failed = 0;
template<class T> struct Plain { // storage of the set below does not come from operator new
    typedef T value_type;
    Plain() {}
    template<class U> Plain(const Plain<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { free(p); }
    template<class U> bool operator==(const Plain<U>&) const { return true; }
    template<class U> bool operator!=(const Plain<U>&) const { return false; }
};
typedef std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, Plain<void*>> Blocks;
static Blocks& blocks() { static Blocks* b = new(malloc(sizeof(Blocks))) Blocks; return *b; }
static void* take(size_t n, size_t al = 0)
{
    if(g_inside) {
        ++g_requests;
        if(g_left >= 0 && (g_left == 0 || --g_left == 0)) { if(!g_all) g_left = -1; ++g_failed; throw std::bad_alloc(); }
    }
    void* p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if(p == nullptr) throw std::bad_alloc();
    if(g_inside) blocks().insert(p);
    return p;
}
static void give(void* p) { if(p != nullptr) { blocks().erase(p); free(p); } }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch(...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch(...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }

class Scarce {
public:
    Scarce(Src& s, std::vector<size_t> vars) : s(s), w(s, std::move(vars)), rb(w.rb) {}
    ~Scarce() { g_inside = false; g_left = -1; }
    Src& s;
    ColWorld w;
    RB& rb;
    std::vector<Item> pool;
    std::vector<std::pair<std::array<uint64_t, 3>, node_ref>> burst; // (variable, low, high): handle
    std::set<std::array<uint64_t, 3>> burst_keys;
    std::vector<size_t> big;           // entries not meant as operands any more
    size_t failures = 0, recovered = 0, calls = 0, kinds = 0;
    std::set<std::string> failed_in;

    bdd_mgr& m() { return *w.mgr; }
    void draw_fault()
    {
        g_left = -1; g_all = false;
        if(s.chance(1, 5)) return;
        switch(s.pick({6, 4, 3, 1})) { case 0: g_left = 1; break; case 1: g_left = s.range(2, 5); break; case 2: g_left = s.range(6, 30); break; default: g_left = s.range(31, 400); }
        g_all = s.coin();
    }
    struct Abandoned { const char* what; };
    bool may_abandon = false;
    template<class CALL> bool inside(CALL&& call, int faults) // 0: none, 1: drawn, 2: the first request
    {
        g_left = -1;
        if(faults == 1) draw_fault(); else if(faults == 2) { g_left = 1; g_all = false; }
        ++calls;
        g_failed = 0;
        bool ok = true;
        g_inside = true;
        try { call(); } catch(const std::bad_alloc&) { ok = false; } catch(...) { g_inside = false; g_left = -1; throw; }
        g_inside = false; g_left = -1;
        return ok;
    }
    // the call, with faults, until it succeeds or has failed a few times; then without. After every failure everything is looked at.
    template<class CALL> void attempt(const char* what, CALL&& call)
    {
        std::vector<Content> snap = w.snapshot();
        for(unsigned k = 0;; ++k) {
            int faults = k < 3 && (k == 0 || s.coin());
            VP_LOG("%s%s", what, k ? ", again" : "");
            bool ok = inside(call, faults);
            if(ok) { if(g_failed) label("succeeded although a request failed"); if(k) ++recovered; return; }
            VP_CHECK(faults, "%s: out of memory although no request was refused", what);
            ++failures;
            VP_LOG("   failed");
            char b[56]; snprintf(b, sizeof b, "failed: %s", what); label(b);
            failed_in.insert(what);
            after_failure(what, snap);
            if(may_abandon && s.chance(1, 3)) { VP_LOG("   not repeated"); label("failed call not repeated"); throw Abandoned{what}; }
        }
    }
    void after_failure(const char* what, const std::vector<Content>& snap)
    {
        w.count(what);
        w.unchanged(snap, what);
        Reader rd(rb);
        for(Item& i : pool) { compared(); F got = rd(i.h); VP_CHECK(got == i.f, "%s failed: a handle denotes %s afterwards, was %s", what, rb.text(got, 12).c_str(), rb.text(i.f, 12).c_str()); }
        if(s.chance(1, 3)) check_held(what);
        if(s.chance(1, 3)) { inside([&] { m().collect_garbage(); }, false); check_count(what); label("collected after a failure"); }
        if(s.chance(1, 4)) destroy_copy(what);
    }
    // structure of everything held, queries on it
    void check_held(const char* what)
    {
        std::vector<node_ref> r;
        for(Item& i : pool) r.push_back(i.h);
        for(auto& b : burst) r.push_back(b.second);
        check_shape(r, what);
        for(Item& i : pool) {
            node_ref h = i.h;
            for(node_ref& n : reachable({h})) VP_CHECK(!n.marked(), "%s: a node is marked afterwards", what);
            VP_CHECK(h.nr_nodes() == rb.size(i.f), "%s: %zu nodes, expected %zu", what, h.nr_nodes(), rb.size(i.f));
        }
    }
    void check_count(const char* what)
    {
        std::vector<node_ref> r;
        for(Item& i : pool) r.push_back(i.h);
        for(auto& b : burst) r.push_back(b.second);
        size_t n = 0;
        for(node_ref& x : reachable(r)) n += !x.is_terminal();
        VP_CHECK(m().nr_nodes() == n + 2, "%s: %zu nodes after a collection, %zu are held", what, m().nr_nodes() - 2, n);
    }
    void destroy_copy(const char* what) { bdd_collection c(w.col); VP_CHECK(c.nr_bdds() == w.model.size(), "%s: a copy has %zu entries", what, c.nr_bdds()); for(size_t i = 0; i < w.model.size(); ++i) check_entry(rb, c, i, w.model[i], what); }

    Item& operand() { return pool[s.draw(pool.size() - 1)]; }
    void keep(node_ref h, F f, const char* what)
    {
        check_denotes(rb, h, f, what);
        for(Item& i : pool) VP_CHECK((i.h == h) == (i.f == f), "%s: %s", what, i.f == f ? "another handle for the same function" : "the same handle for another function");
        if(pool.size() >= 14) { size_t k = s.draw(pool.size() - 1); pool[k] = Item{h, f}; }
        else pool.push_back(Item{h, f});
    }
    void manager_op()
    {
        size_t k = s.draw(13);
        node_ref r;
        Item a = operand(), b = operand(), c = operand();
        switch(k) {
            case 0: attempt("and", [&] { r = m().and_rec(a.h, b.h); }); keep(r, rb.conj(a.f, b.f), "and"); break;
            case 1: attempt("or", [&] { r = m().or_rec(a.h, b.h); }); keep(r, rb.disj(a.f, b.f), "or"); break;
            case 2: attempt("xor", [&] { r = m().xor_rec(a.h, b.h); }); keep(r, rb.exor(a.f, b.f), "xor"); break;
            case 3: attempt("negate", [&] { r = m().negate(a.h); }); keep(r, rb.neg(a.f), "negate"); break;
            case 4: attempt("ite", [&] { r = m().ite_rec(a.h, b.h, c.h); }); keep(r, rb.ite(a.f, b.f, c.f), "ite"); break;
            case 5: {
                std::vector<node_ref> hs; F f = 0; size_t n = s.range(2, 7);
                for(size_t i = 0; i < n; ++i) { Item x = operand(); hs.push_back(x.h); f = rb.disj(f, x.f); }
                attempt("or of a range", [&] { r = m().or_rec(hs.begin(), hs.end()); }); keep(r, f, "or of a range");
                break;
            }
            case 6: {
                F f = rb.conj(a.f, b.f); size_t n = rb.size(f), limit = n + s.draw(3), got = 0;
                attempt("limited and", [&] { auto [x, y] = m().and_rec_limited(a.h, b.h, limit); r = x; got = y; });
                if(n < limit) { VP_CHECK(got == n, "limited and: size %zu, expected %zu", got, n); keep(r, f, "limited and"); }
                else VP_CHECK(r.address() == nullptr && got == std::numeric_limits<size_t>::max(), "limited and: not refused");
                break;
            }
            case 7: { size_t v = m().nr_variables() + s.draw(3); if(s.coin() || v > 60) v = w.vars[s.draw(w.vars.size() - 1)]; attempt("projection", [&] { r = m().projection(v); }); keep(r, rb.variable(v), "projection"); break; }
            case 8: {
                size_t top = std::min<uint64_t>(a.f < 2 ? m().nr_variables() : rb.var(a.f), b.f < 2 ? m().nr_variables() : rb.var(b.f));
                if(top == 0) break;
                size_t v = s.draw(top - 1);
                attempt("lookup of a node", [&] { r = m().unique_find(v, a.h, b.h); });
                keep(r, rb.ite(rb.variable(v), b.f, a.f), "lookup of a node");
                break;
            }
            case 9: case 10: {
                std::vector<size_t> sup = rb.support(a.f);
                if(!sup.empty() && sup.back() > 60) break;
                size_t d = s.draw(4);
                F f = rb.rename(a.f, [&](uint64_t v) { return v + d; });
                if(k == 9) { std::unordered_map<size_t, size_t> mp; for(size_t v : sup) mp[v] = v + d; attempt("renaming, map", [&] { r = m().rebase(a.h, mp); }); }
                else { std::vector<size_t> mp(sup.empty() ? 0 : sup.back() + 1); for(size_t v = 0; v < mp.size(); ++v) mp[v] = v + d; attempt("renaming, vector", [&] { r = m().rebase(a.h, mp.begin(), mp.end()); }); }
                keep(r, f, "renaming");
                break;
            }
            case 11: case 12: {
                std::vector<node_ref> hs; std::vector<F> fs; size_t n = s.range(1, 6), bound = s.draw(n);
                for(size_t i = 0; i < n; ++i) { Item x = operand(); hs.push_back(x.h); fs.push_back(x.f); }
                std::vector<F> ex(n + 1, 0); ex[0] = 1;
                for(F f : fs) for(size_t q = n + 1; q-- > 0;) ex[q] = rb.ite(f, q ? ex[q - 1] : 0, ex[q]);
                F am = 0; for(size_t q = 0; q <= bound; ++q) am = rb.disj(am, ex[q]);
                switch(s.draw(3)) {
                    case 0: attempt("at most", [&] { r = m().at_most(hs.begin(), hs.end(), bound); }); keep(r, am, "at most"); break;
                    case 1: attempt("cardinality", [&] { r = m().cardinality(hs.begin(), hs.end(), bound); }); keep(r, ex[bound], "cardinality"); break;
                    case 2: attempt("at most one", [&] { r = m().at_most_one(hs.begin(), hs.end()); }); keep(r, rb.disj(ex[0], ex[1]), "at most one"); break;
                    default: attempt("simplex", [&] { r = m().simplex(hs.begin(), hs.end()); }); keep(r, ex[1], "simplex");
                }
                break;
            }
            default: { size_t n = m().nr_variables(); if(n > 60) break; attempt("new variable", [&] { m().add_variable(); }); VP_CHECK(m().nr_variables() == n + 1, "new variable: %zu variables, expected %zu", m().nr_variables(), n + 1); }
        }
    }
    void collect()
    {
        for(unsigned k = s.draw(4); k > 0 && pool.size() > 2; --k) { size_t i = s.draw(pool.size() - 1); pool[i] = pool.back(); pool.pop_back(); }
        if(s.chance(1, 3)) { size_t n = s.coin() ? burst.size() : burst.size() * 7 / 8; while(burst.size() > burst.size() - std::min(n, burst.size()) && n > 0) { burst_keys.erase(burst.back().first); burst.pop_back(); --n; } label("most of the nodes of a burst dropped"); }
        attempt("collection", [&] { m().collect_garbage(); });
        check_count("collection");
    }
    // many nodes on one variable; the calls that need memory are few, every second of them fails
    void op_burst()
    {
        bool deep = s.chance(1, 5) && w.vars.size() > 3;
        size_t top = deep ? s.range(0, 1) : s.draw(std::min<size_t>(w.vars.size() - 1, 2));
        size_t n = deep ? s.range(1000, 9500) : s.pick({3, 2, 1}) == 0 ? s.range(5, 60) : s.coin() ? s.range(61, 300) : s.range(301, 1200);
        if(burst.size() > 20000) return;
        if(!deep) { lookups(w.vars[top], n); return; }
        for(size_t k = w.vars.size() - 2; k > top; --k) lookups(w.vars[k], 15 + s.draw(25));
        lookups(w.vars[top], n);
        label("thousands of nodes on one variable asked for");
    }
    void lookups(size_t v, size_t n)
    {
        if(v >= m().nr_variables()) return;
        std::vector<F> of; std::vector<node_ref> hs;
        std::unordered_set<F> in;
        for(Item& i : pool) if((i.f < 2 || rb.var(i.f) > v) && in.insert(i.f).second) { of.push_back(i.f); hs.push_back(i.h); }
        size_t most = n > 1200 ? 130 : 40;
        for(auto& x : burst) { if(hs.size() >= most) break; if(x.first[0] > v) { F f = rb.ite(rb.variable(x.first[0]), F(x.first[2]), F(x.first[1])); if(in.insert(f).second) { of.push_back(f); hs.push_back(x.second); } } }
        uint64_t seed = s.draw(1 << 20);
        VP_LOG("%zu lookups on variable %zu, %zu children", n, v, hs.size());
        if(hs.size() < 2) return;
        std::vector<Content> snap = w.snapshot();
        node_ref r;
        size_t failed = 0;
        for(size_t i = 0; i < n; ++i) {
            uint64_t h = mix(seed + i);
            size_t l = h % hs.size(), u = (h >> 32) % hs.size();
            if(l == u) continue;
            std::array<uint64_t, 3> key{v, of[l], of[u]};
            bool known = burst_keys.count(key), refuse = (h >> 20) % 8 != 0;
            if(!inside([&] { r = m().unique_find(v, hs[l], hs[u]); }, refuse ? 2 : 0)) {
                VP_CHECK(refuse, "lookup: out of memory although no request was refused");
                ++failures; ++failed;
                VP_LOG("   failed, lookup %zu", i);
                label("failed: lookup of one of many nodes");
                after_failure("lookup of one of many nodes", snap);
                if(failed < 20 && s.coin()) check_burst("after a lookup failed");
                if((h >> 24) % 2 && failed > 1) continue;
                if((h >> 25) % 4 == 0 && !inside([&] { r = m().unique_find(v, hs[l], hs[u]); }, 2)) { ++failures; label("failed: lookup of one of many nodes, again"); }
                VP_CHECK(inside([&] { r = m().unique_find(v, hs[l], hs[u]); }, 0), "lookup: out of memory although no request was refused");
                ++recovered;
            }
            VP_CHECK(r.variable() == v && r.low() == hs[l] && r.high() == hs[u], "lookup gives another node");
            if(!known) { burst_keys.insert(key); burst.push_back({key, r}); }
        }
        check_burst("after a burst");
        if(burst.size() > 500) label("more than 500 nodes of bursts held");
        if(burst.size() > 4096) label("more than 4096 nodes of bursts held");
    }
    void check_burst(const char* what)
    {
        std::unordered_map<F, node_ref> by;
        std::set<std::array<void*, 2>> seen;
        for(auto& [k, h] : burst) {
            compared();
            VP_CHECK(h.variable() == k[0], "%s: a node has variable %zu, was %zu", what, h.variable(), (size_t)k[0]);
            VP_CHECK(m().unique_find(k[0], h.low(), h.high()) == h, "%s: the same variable and children give another node", what);
        }
    }
    void query()
    {
        Item a = operand();
        node_ref h = a.h;
        size_t n = rb.size(a.f);
        switch(s.draw(5)) {
            case 0: { std::vector<node_ref> v; attempt("postorder", [&] { v = h.nodes_postorder(); }); VP_CHECK(v.size() == n && (n == 0 || v.back() == h), "postorder lists %zu of %zu nodes", v.size(), n); break; }
            case 1: { std::vector<node_ref> v; attempt("breadth-first order", [&] { v = h.nodes_bfs(); }); VP_CHECK(v.size() == n && (n == 0 || v[0] == h), "breadth-first order lists %zu of %zu nodes", v.size(), n); break; }
            case 2: { std::vector<size_t> v; attempt("variables", [&] { v = h.variables(); }); VP_CHECK(v == rb.support(a.f), "variables() is not the support"); break; }
            case 3: { size_t k = 0; attempt("node count", [&] { k = h.nr_nodes(); }); VP_CHECK(k == n, "%zu nodes, expected %zu", k, n); break; }
            case 4: { // the depth helper
                std::vector<node_ref> v = h.nodes_postorder();
                BDD::bdd_node_depth d;
                attempt("depth helper", [&] { BDD::bdd_node_depth e; e.add_botsink(m().botsink().address()); e.add_topsink(m().topsink().address()); size_t last = 0; for(auto& x : v) last = e.add_node(x.address()); (void)last; });
                break;
            }
            default: if(!w.model.empty()) { size_t i = w.some(); std::vector<size_t> v; attempt("variables of an entry", [&] { v = s.coin() ? w.col.variables(i) : w.col[i].variables(); }); VP_CHECK(v == rb.support(w.model[i]), "variables of an entry are not the support"); }
        }
    }
    bool room() { return w.model.size() < 30; }
    void appended(size_t nr, F f, const char* what) { VP_CHECK(nr == w.model.size(), "%s: index %zu, expected %zu", what, nr, w.model.size()); w.model.push_back(f); w.count(what); check_entry(rb, w.col, nr, f, what); }
    void collection_op()
    {
        size_t k = s.draw(9);
        if(w.model.empty()) k = s.coin() ? 0 : 5;
        size_t nr = 0;
        auto i = [&] { return w.some(); };
        if(!room() && k != 4 && k != 6 && k != 7) k = 4;
        switch(k) {
            case 0: case 9: { Item a = operand(); attempt("store", [&] { nr = w.col.add_bdd(a.h); }); appended(nr, a.f, "store"); break; }
            case 1: { size_t a = i(), b = i(); F f = rb.conj(w.model[a], w.model[b]); size_t n = rb.size(f) + 2, limit = s.coin() ? SIZE_MAX : std::max<size_t>(3, n - s.draw(1));
                attempt("conjunction of entries", [&] { nr = w.col.bdd_and(a, b, limit); });
                if(n <= limit) appended(nr, f, "conjunction of entries"); else { VP_CHECK(nr == SIZE_MAX, "conjunction of entries: not refused"); w.count("conjunction of entries"); }
                break; }
            case 2: { size_t n = s.chance(1, 4) ? s.range(10, 49) : s.range(2, 9); std::vector<size_t> r; F f = 1; for(size_t q = 0; q < n; ++q) { r.push_back(i()); f = rb.conj(f, w.model[r.back()]); }
                attempt("conjunction of a range", [&] { nr = w.col.bdd_and(r.begin(), r.end()); }); appended(nr, f, "conjunction of a range"); break; }
            case 3: { std::set<size_t> pos, neg; size_t a = i(); F f = w.model[a];
                for(unsigned q = s.draw(4); q > 0; --q) { size_t v = w.vars[s.draw(w.vars.size() - 1)] + s.draw(1); bool p = s.coin(); (p ? pos : neg).insert(v); f = rb.disj(f, p ? rb.variable(v) : rb.neg(rb.variable(v))); }
                attempt("disjunction with literals", [&] { nr = w.col.bdd_or_var(a, pos, neg); }); appended(nr, f, "disjunction with literals"); break; }
            case 4: { if(w.model.empty()) break; std::vector<size_t> rem; std::vector<F> left; uint64_t q = s.draw(UINT32_MAX); for(size_t j = 0; j < w.model.size(); ++j) if(mix(q + j) % 3 == 0) rem.push_back(j); else left.push_back(w.model[j]);
                attempt("removal", [&] { w.col.remove(rem.begin(), rem.end()); }); w.model = left; w.check_all("removal"); break; }
            case 5: build_entry(); break;
            case 6: { size_t a = i(); node_ref r; size_t most = 0; for(size_t v : rb.support(w.model[a])) most = v + 1;
                while(m().nr_variables() < most) m().add_variable();
                if(s.coin()) attempt("export", [&] { r = w.col.export_bdd(m(), a); }); else attempt("import by the manager", [&] { r = m().add_bdd(w.col, a); });
                keep(r, w.model[a], "export"); break; }
            case 7: { // a copy; the original is unaffected, the copy complete or not there
                std::unique_ptr<bdd_collection> c;
                attempt("copy", [&] { c.reset(new bdd_collection(w.col)); });
                for(size_t j = 0; j < w.model.size(); ++j) check_entry(rb, *c, j, w.model[j], "copy");
                bdd_collection d; d.add_bdd(m().topsink());
                attempt("assignment", [&] { d = w.col; });
                VP_CHECK(d.nr_bdds() == w.model.size(), "assignment: %zu entries", d.nr_bdds());
                for(size_t j = 0; j < w.model.size(); ++j) check_entry(rb, d, j, w.model[j], "assignment");
                if(s.coin()) { attempt("move", [&] { w.col = std::move(d); }); w.check_all("move"); }
                break; }
            default: { size_t a = i(); std::vector<size_t> sup = rb.support(w.model[a]); if(!sup.empty() && sup.back() > 60) break; std::unordered_map<size_t, size_t> mp; for(size_t v : sup) mp[v] = v + 1;
                // nothing to fail for the entry itself
                g_left = -1; w.col.rebase(a, mp); w.model[a] = rb.rename(w.model[a], [&](uint64_t v) { return v + 1; }); check_entry(rb, w.col, a, w.model[a], "renaming of an entry"); }
        }
    }
    // node by node; a step that failed is repeated
    void build_entry()
    {
        F f = operand().f;
        if(f < 2) return;
        std::vector<F> order; std::set<F> seen;
        std::function<void(F)> go = [&](F x) { if(x < 2 || !seen.insert(x).second) return; go(rb.lo(x)); go(rb.hi(x)); order.push_back(x); };
        go(f);
        std::reverse(order.begin(), order.end());
        auto snap = w.snapshot();
        size_t added = 0; bool open = false;
        auto step = [&](const char* what, auto&& call) { for(unsigned k = 0; !inside(call, k < 3); ++k) { ++failures; char b[56]; snprintf(b, sizeof b, "failed: %s", what); label(b); VP_CHECK(w.col.nr_bdds() == w.model.size() + open, "%s failed: %zu entries", what, w.col.nr_bdds()); if(open) VP_CHECK(w.col.nr_bdd_nodes(w.model.size()) == added, "%s failed: %zu nodes in the open entry, %zu were added", what, w.col.nr_bdd_nodes(w.model.size()), added); } };
        size_t nr = SIZE_MAX;
        step("opening an entry", [&] { nr = w.col.new_bdd(); });
        VP_CHECK(nr == w.model.size(), "new_bdd: index %zu, expected %zu", nr, w.model.size());
        open = true;
        std::unordered_map<F, std::unique_ptr<BDD::bdd_collection_node>> at;
        for(F x : order) { size_t v = rb.var(x); step("adding a node", [&] { auto n = w.col.add_bdd_node(v); g_inside = false; at[x].reset(new BDD::bdd_collection_node(n)); }); ++added; }
        for(F x : order) {
            auto& n = *at[x];
            if(rb.lo(x) == 0) n.set_lo_to_0_terminal(); else if(rb.lo(x) == 1) n.set_lo_to_1_terminal(); else n.set_lo_arc(*at[rb.lo(x)]);
            if(rb.hi(x) == 0) n.set_hi_to_0_terminal(); else if(rb.hi(x) == 1) n.set_hi_to_1_terminal(); else n.set_hi_arc(*at[rb.hi(x)]);
        }
        step("closing an entry", [&] { w.col.close_bdd(); });
        w.model.push_back(f);
        w.count("built entry");
        check_entry(rb, w.col, nr, f, "built entry");
        w.unchanged(snap, "built entry");
        label("entry built node by node");
    }
    void other_objects()
    {
        std::unique_ptr<bdd_mgr> o;
        attempt("new manager", [&] { o.reset(new bdd_mgr); });
        Item a = operand();
        if(!w.model.empty()) {
            size_t i = w.some();
            node_ref r;
            size_t most = 0; for(size_t v : rb.support(w.model[i])) most = v + 1;
            for(size_t v = 0; v < most; ++v) attempt("new variable of another manager", [&] { if(o->nr_variables() <= v) o->add_variable(); });
            attempt("export to another manager", [&] { r = w.col.export_bdd(*o, i); });
            check_denotes(rb, r, w.model[i], "export to another manager");
            r = node_ref();
        }
        label("another manager");
    }
    void run()
    {
        size_t most = w.vars.back() + 1;
        // the first node of a thread draws a seed; not part of this
        { bdd_mgr o; o.projection(0); }
        w.mgr.reset();
        for(unsigned k = 0; !inside([&] { w.mgr.reset(new bdd_mgr); }, k < 3); ++k) { ++failures; label("failed: the manager"); }
        for(size_t v = 0; v < most; ++v) attempt("new variable", [&] { m().add_variable(); });
        pool.push_back({m().topsink(), 1});
        pool.push_back({m().botsink(), 0});
        for(size_t v : w.vars) { node_ref r; attempt("projection", [&] { r = m().projection(v); }); keep(r, rb.variable(v), "projection"); }
        size_t steps = s.range(1, 40);
        may_abandon = true;
        for(size_t i = 0; i < steps; ++i) try { switch(s.pick({10, 3, 2, 3, 6, 1})) {
            case 0: manager_op(); break;
            case 1: collect(); break;
            case 2: op_burst(); break;
            case 3: query(); break;
            case 4: collection_op(); break;
            default: other_objects();
        } } catch(const Abandoned& x) { w.count(x.what); if(s.chance(1, 4)) w.check_all(x.what); }
        may_abandon = false;
        w.check_all("at the end");
        check_held("at the end");
        check_burst("at the end");
        for(Item& i : pool) check_denotes(rb, i.h, i.f, "at the end");
        // everything given back
        pool.clear(); burst.clear();
        inside([&] { m().collect_garbage(); }, false);
        VP_CHECK(m().nr_nodes() == 2, "%zu nodes left although no handle exists", m().nr_nodes() - 2);
        w.mgr.reset();
        w.col = bdd_collection();
        if(failures >= 2 && recovered >= 1) nontrivial();
    }
};

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    blocks().clear();
    { Scarce x(s, draw_variables(s, 7)); x.run(); }
    VP_CHECK(blocks().empty(), "%zu blocks of memory were not given back when manager, collection and handles were gone", blocks().size());
}

const Property vp::property = {"C25", "histories on one manager and one collection in which requests for memory inside a call fail, singly or all from one on; non-trivial: at least two calls failed and at least one of them succeeded when repeated", run, 5000, 1600, 120000, 30000, 20};
