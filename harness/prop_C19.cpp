// C19: node and page allocators, driven directly. Oracle: the sets of reserved and released addresses, reference
// counts and contents kept by the harness.
#include "model.h"
#include "bdd_node_cache.h"
#include "bdd_var.h"
using namespace vp;
using BDD::node; using BDD::bdd_node_cache; using BDD::unique_table_page; using BDD::unique_table_page_cache;

static std::map<uintptr_t, uintptr_t>& in_use() { static std::map<uintptr_t, uintptr_t> m; return m; } // begin -> end, over all allocators

static void claim(const void* p, size_t bytes, const char* what)
{
    uintptr_t b = (uintptr_t)p, e = b + bytes;
    VP_CHECK(p != nullptr, "%s: null", what);
    VP_CHECK(b % alignof(void*) == 0, "%s: misaligned", what);
    auto it = in_use().lower_bound(b);
    VP_CHECK(it == in_use().end() || it->first >= e, "%s: storage overlaps storage in use", what);
    if(it != in_use().begin()) { --it; VP_CHECK(it->second <= b, "%s: storage overlaps storage in use", what); }
    in_use().emplace(b, e);
}
static void unclaim(const void* p) { in_use().erase((uintptr_t)p); }

// ---------------------------------------------------------------- nodes
class Nodes {
public:
    Nodes(Src& s) : s(s), cache(new bdd_node_cache(nullptr))
    {
        bot = cache->botsink(); top = cache->topsink();
        claim(bot, sizeof(node), "false terminal"); claim(top, sizeof(node), "true terminal");
        VP_CHECK(bot->is_botsink() && top->is_topsink() && !bot->is_topsink() && !top->is_botsink(), "terminals of a new cache");
        VP_CHECK(bot->marked_ == 0 && top->marked_ == 0, "a terminal of a new cache is marked");
        VP_CHECK(cache->nr_nodes() == 2, "%zu nodes in a new cache", cache->nr_nodes());
        botrefs = bot->xref; toprefs = top->xref;
    }
    ~Nodes()
    {
        check("before destruction");
        for(auto& [p, i] : live) unclaim(p);
        unclaim(bot); unclaim(top);
    }
    size_t count() const { return live.size(); }
    void reserve()
    {
        node* p = cache->reserve_node();
        claim(p, sizeof(node), "reserved node");
        if(!released.empty()) { VP_CHECK(released.erase(p), "a fresh node is handed out although %zu released ones are available", released.size()); ++reused; }
        Info i;
        i.var = 1000 + s.draw(1000); i.lo = child(); i.hi = child();
        if(i.hi == i.lo) i.hi = i.lo == top ? bot : top;
        p->init_new_node(i.var, i.lo, i.hi);
        i.extra = s.draw(7) == 0;
        p->xref += i.extra;
        i.refs = i.extra;
        i.key = p->hash_key;
        ref(i.lo, 1); ref(i.hi, 1);
        live.emplace(p, i);
        order.push_back(p);
        VP_CHECK(cache->nr_nodes() == 2 + live.size(), "%zu nodes counted, %zu reserved and not released", cache->nr_nodes(), live.size());
    }
    bool release(size_t where)
    {
        // a node without references
        for(size_t k = 0; k < order.size() && k < 50; ++k) {
            size_t j = (where + k) % order.size();
            node* p = order[j];
            Info i = live[p];
            if(i.refs != i.extra) continue;
            p->xref -= i.extra;
            int lo = i.lo->xref, hi = i.hi->xref;
            cache->free_node(p);
            VP_CHECK(i.lo->xref == lo - 1 && i.hi->xref == hi - 1, "releasing a node changed the references of its children from %d and %d to %d and %d", lo, hi, i.lo->xref, i.hi->xref);
            ref(i.lo, -1); ref(i.hi, -1);
            live.erase(p); order[j] = order.back(); order.pop_back();
            released.insert(p); unclaim(p);
            VP_CHECK(cache->nr_nodes() == 2 + live.size(), "%zu nodes counted, %zu reserved and not released", cache->nr_nodes(), live.size());
            ++freed;
            return true;
        }
        return false;
    }
    void check(const char* when)
    {
        VP_CHECK(cache->botsink() == bot && cache->topsink() == top, "%s: terminals moved", when);
        VP_CHECK(bot->is_botsink() && top->is_topsink(), "%s: a terminal was overwritten", when);
        VP_CHECK(bot->xref == botrefs && top->xref == toprefs, "%s: references of the terminals are %d and %d, expected %d and %d", when, bot->xref, top->xref, botrefs, toprefs);
        compared(live.size());
        for(auto& [p, i] : live) if(p->index != i.var || p->lo != i.lo || p->hi != i.hi || p->hash_key != i.key || p->marked_ != 0) fail("%s: a node in use was overwritten", when);
        for(auto& [p, i] : live) if(p->xref != (int)i.refs) fail("%s: a node in use has %d references, expected %zu", when, p->xref, i.refs);
    }
    size_t reused = 0, freed = 0;
private:
    struct Info { size_t var; node* lo; node* hi; size_t refs = 0, extra = 0, key = 0; };
    Src& s;
    std::unique_ptr<bdd_node_cache> cache;
    node *bot, *top;
    int botrefs, toprefs;
    std::unordered_map<node*, Info> live;
    std::vector<node*> order;
    std::unordered_set<node*> released;
    node* child() { if(order.empty() || s.draw(3) != 0) return s.coin() ? top : bot; return order[s.draw(order.size() - 1)]; }
    void ref(node* p, int d) { if(p == bot) botrefs += d; else if(p == top) toprefs += d; else live[p].refs += d; }
};

// ---------------------------------------------------------------- pages
class PagesBase {
public:
    virtual ~PagesBase() {}
    virtual void reserve() = 0;
    virtual void release(size_t where) = 0;
    virtual void check(const char* when) = 0;
    virtual size_t count() const = 0;
    virtual size_t block() const = 0;
    virtual size_t size() const = 0;
    virtual size_t blocks() const = 0;
    size_t reused = 0, freed = 0;
};

template<size_t P, size_t N> class Pages : public PagesBase {
    typedef unique_table_page<P> Page;
    unique_table_page_cache<P, N>& cache;
    struct Info { Page* p; uint64_t seed; };
    std::vector<Info> live;
    size_t was_free = 0;
    static node* value(uint64_t seed, size_t k) { return (node*)(uintptr_t)(mix(seed + k) | 1); }
    static size_t step() { return P <= 1024 ? 1 : P / 512 - 1; } // entries looked at: all of a small page, many of a large one
    void fill(Info& i) { for(size_t k = 0; k < P; k += step()) i.p->data[k] = value(i.seed, k); i.p->data[P - 1] = value(i.seed, P - 1); }
    void verify(const Info& i, const char* when)
    {
        compared();
        for(size_t k = 0; k < P; k += step()) if(i.p->data[k] != value(i.seed, k)) fail("%s: a page of %zu entries in use was overwritten at entry %zu", when, P, k);
        if(i.p->data[P - 1] != value(i.seed, P - 1)) fail("%s: a page of %zu entries in use was overwritten at its last entry", when, P);
    }
public:
    Pages(unique_table_page_cache<P, N>& c) : cache(c) { VP_CHECK(cache.nr_pages() == 0, "a new page cache has %zu pages", cache.nr_pages()); static_assert(sizeof(Page) == P * sizeof(node*), "page size"); }
    ~Pages() { for(Info& i : live) { verify(i, "before destruction"); unclaim(i.p); } }
    size_t count() const override { return live.size(); }
    size_t block() const override { return N; }
    size_t size() const override { return P; }
    size_t blocks() const override { return cache.nr_pages() / N; }
    void reserve() override
    {
        size_t before = cache.nr_pages();
        Page* p = cache.reserve_page();
        char w[64]; snprintf(w, sizeof w, "reserved page of %zu entries", P);
        claim(p, sizeof(Page), w);
        for(size_t k = 0; k < P; ++k) if(p->data[k] != nullptr) fail("%s: entry %zu is not empty", w, k);
        compared();
        if(live.size() < before) { VP_CHECK(cache.nr_pages() == before, "%s: more pages requested although %zu of %zu are free", w, before - live.size(), before); if(freed > reused) ++reused; }
        VP_CHECK(cache.nr_pages() > live.size(), "%s: %zu pages counted, %zu reserved", w, cache.nr_pages(), live.size() + 1);
        live.push_back({p, (uint64_t)(uintptr_t)p * 31 + freed + live.size()});
        fill(live.back());
    }
    void release(size_t where) override
    {
        if(live.empty()) return;
        size_t j = where % live.size(), before = cache.nr_pages();
        verify(live[j], "on release");
        unclaim(live[j].p);
        cache.free_page(live[j].p);
        live[j] = live.back(); live.pop_back();
        VP_CHECK(cache.nr_pages() == before, "releasing a page changed the number of pages");
        ++freed;
    }
    void check(const char* when) override { for(Info& i : live) verify(i, when); }
};

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    bool pages = s.coin();
    size_t total_reused = 0, total_freed = 0, boundary = 0;
    if(!pages) {
        std::vector<std::unique_ptr<Nodes>> c;
        for(unsigned k = s.range(1, 3); k > 0; --k) c.emplace_back(new Nodes(s));
        size_t steps = s.range(3, 40), bulk = 0;
        for(size_t i = 0; i < steps; ++i) {
            Nodes& n = *c[s.draw(c.size() - 1)];
            switch(s.pick({4, 4, 2, 2, 2, 1, 1})) {
                case 0: for(unsigned k = s.range(1, 30); k > 0; --k) n.reserve(); break;
                case 1: for(unsigned k = s.range(1, 30); k > 0; --k) n.release(n.count() ? s.draw(n.count() - 1) : 0); break;
                case 2: for(unsigned k = s.range(1, 20); k > 0; --k) { if(s.coin()) n.reserve(); else n.release(n.count() ? s.draw(n.count() - 1) : 0); } break;
                case 3: if(bulk < 4) { // up to or just past the end of a block
                    size_t page = BDD::bdd_node_page_size, t = page * (1 + n.count() / page) - 2 - 3 + s.draw(6);
                    VP_LOG("reserve until %zu nodes", t);
                    while(n.count() < t) n.reserve();
                    ++bulk; ++boundary; label("reserved to the end of a block");
                } break;
                case 4: { size_t k = s.draw(n.count()), f = 0; VP_LOG("release %zu of %zu nodes", k, n.count()); size_t st = s.draw(1000000); for(size_t j = 0; j < k && f < 60; ++j) if(!n.release(n.count() ? (st + j * 7919) % n.count() : 0)) ++f; label("many released"); break; }
                case 5: n.check("in between"); break;
                default: if(c.size() < 4 && s.coin()) c.emplace_back(new Nodes(s)); else if(c.size() > 1) { size_t j = s.draw(c.size() - 1); total_reused += c[j]->reused; total_freed += c[j]->freed; c.erase(c.begin() + j); label("a cache destroyed while others are in use"); }
            }
        }
        for(auto& n : c) { n->check("at the end"); total_reused += n->reused; total_freed += n->freed; }
        label("node allocator");
    } else {
        std::unique_ptr<BDD::unique_table_page_caches> all(new BDD::unique_table_page_caches), second(new BDD::unique_table_page_caches);
        std::vector<std::unique_ptr<PagesBase>> c;
        auto add = [&](BDD::unique_table_page_caches& a, int k) {
            switch(k) {
#define VP_PAGES(i, n) case i: c.emplace_back(new Pages<n, std::remove_reference_t<decltype(a.cache_##n)>::nr_pages_simultaneous_allocation>(a.cache_##n)); break;
                VP_PAGES(0, 64) VP_PAGES(1, 128) VP_PAGES(2, 256) VP_PAGES(3, 512) VP_PAGES(4, 1024) VP_PAGES(5, 2048) VP_PAGES(6, 4096) VP_PAGES(7, 8192)
                VP_PAGES(8, 16384) VP_PAGES(9, 32768) VP_PAGES(10, 65536) VP_PAGES(11, 131072) VP_PAGES(12, 262144) VP_PAGES(13, 524288) VP_PAGES(14, 1048576)
            }
        };
        std::set<int> used;
        for(unsigned k = s.range(1, 4); k > 0; --k) { int z = s.draw(14); if(used.insert(z).second) add(*all, z); }
        if(s.chance(1, 4)) add(*second, *used.begin());
        size_t steps = s.range(3, 30), bulk = 0;
        double cost = 0;
        for(size_t i = 0; i < steps; ++i) {
            PagesBase& n = *c[s.draw(c.size() - 1)];
            unsigned most = n.size() >= 262144 ? 4 : n.size() >= 16384 ? 10 : 30;
            switch(s.pick({4, 4, 3, 2, 2, 1})) {
                case 0: for(unsigned k = s.range(1, most); k > 0; --k) if(n.blocks() < 12 || n.count() < n.blocks() * n.block()) n.reserve(); break;
                case 1: for(unsigned k = s.range(1, most); k > 0; --k) n.release(n.count() ? s.draw(n.count() - 1) : 0); break;
                case 2: for(unsigned k = s.range(1, most); k > 0; --k) { if(s.coin()) { if(n.blocks() < 12 || n.count() < n.blocks() * n.block()) n.reserve(); } else n.release(n.count() ? s.draw(n.count() - 1) : 0); } break;
                case 3: if(bulk < 2 && n.blocks() < 6) { size_t t = n.block() * (1 + n.count() / n.block()) + s.draw(2) - 1; VP_LOG("reserve until %zu pages of %zu entries", t, n.size()); while(n.count() < t) n.reserve(); ++bulk; ++boundary; label("reserved to the end of a block"); } break;
                case 4: { size_t k = s.draw(n.count()), st = s.draw(1000000); VP_LOG("release %zu of %zu pages of %zu entries", k, n.count(), n.size()); for(size_t j = 0; j < k; ++j) n.release(st + j * 7919); label("many released"); break; }
                default: for(auto& p : c) p->check("in between");
            }
            (void)cost;
        }
        for(auto& p : c) { p->check("at the end"); total_reused += p->reused; total_freed += p->freed; char b[48]; snprintf(b, sizeof b, "pages of %zu", p->size()); label(b); if(p->blocks() > 1) label("more than one block of pages"); }
        label("page allocator");
    }
    in_use().clear();
    if(total_reused > 0 && total_freed > 0) nontrivial();
}

const Property vp::property = {"C19", "sequences of reserve and release on one to four node caches, or on page caches of every size, around block boundaries, with contents and reference counts tracked; non-trivial: storage was released and reserved again", run, 7500, 1600, 60000, 15000, 20};
