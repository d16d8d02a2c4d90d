// C24: the cache of operation results, driven directly. Oracle: a map from (operands, operation) to the result inserted last.
#include "model.h"
#include "bdd_memo_cache.h"
#include <array>
#include <unordered_map>
using namespace vp;
using BDD::node; using BDD::memo_struct; using BDD::memo_cache; using BDD::bdd_node_cache;

using Key = std::array<node*, 3>;
struct KeyHash { size_t operator()(const Key& k) const { return mix((uint64_t)k[0] ^ mix((uint64_t)k[1] ^ mix((uint64_t)k[2]))); } };

class Cache {
public:
    Cache(Src& s) : s(s), nodes(nullptr), cache(nodes)
    {
        pool = {nodes.botsink(), nodes.topsink()};
        held = {1, 1};
        size_t n = s.pick({4, 4, 1}) == 0 ? s.range(1, 6) : s.coin() ? s.range(7, 60) : s.range(61, 3000);
        for(size_t i = 0; i < n; ++i) add_node();
        VP_LOG("%zu nodes", n);
    }
    void add_node()
    {
        node* p = nodes.reserve_node();
        node* lo = pool[mix(pool.size()) % pool.size()]; node* hi = pool[mix(pool.size() + 77) % pool.size()];
        if(lo == hi) { lo = nodes.botsink(); hi = nodes.topsink(); }
        p->init_new_node(100000 - pool.size(), lo, hi);
        p->xref++;
        held.push_back(1);
        pool.push_back(p);
    }
    // three operations and if-then-else
    node* symbol(size_t k, size_t i) { return k == 0 ? memo_struct::and_symb() : k == 1 ? memo_struct::or_symb() : k == 2 ? memo_struct::xor_symb() : pool[i % pool.size()]; }
    size_t index() { return s.coin() ? s.draw(std::min<size_t>(pool.size() - 1, 5)) : s.draw(pool.size() - 1); }
    Key draw_key() { node* f = pool[index()]; node* g = pool[index()]; size_t k = s.draw(3); return {f, g, symbol(k, k == 3 ? index() : 0)}; }
    std::string text(const Key& k) { char b[100]; snprintf(b, sizeof b, "(%zu, %zu, %s%zu)", where(k[0]), where(k[1]), (uintptr_t)k[2] < 100 ? "op" : "", (uintptr_t)k[2] < 100 ? (size_t)k[2] : where(k[2])); return b; }
    size_t where(node* p) { for(size_t i = 0; i < pool.size(); ++i) if(pool[i] == p) return i; return pool.size(); }

    void look(const Key& k, const char* what)
    {
        node* r = cache.cache_lookup(k[0], k[1], k[2]);
        auto it = model.find(k);
        if(it == model.end()) VP_CHECK(r == nullptr, "%s: a result is found for %s, for which none was inserted since it was forgotten", what, text(k).c_str());
        else VP_CHECK(r == nullptr || r == it->second, "%s: the result found for %s is node %zu, node %zu was inserted", what, text(k).c_str(), where(r), where(it->second));
        if(r != nullptr) ++hits;
    }
    std::unordered_map<Key, node*, KeyHash> present()
    {
        std::unordered_map<Key, node*, KeyHash> m;
        for(auto& [k, r] : model) { look(k, "all keys"); node* x = cache.cache_lookup(k[0], k[1], k[2]); if(x != nullptr) m.emplace(k, x); }
        return m;
    }
    void insert()
    {
        Key k = draw_key();
        if(!recent.empty() && s.chance(1, 4)) { // again, or a relative of one inserted before
            k = recent[s.draw(recent.size() - 1)];
            switch(s.draw(3)) { case 0: break; case 1: std::swap(k[0], k[1]); break; case 2: k[2] = symbol(s.draw(2), 0); break; default: k[s.draw(1)] = pool[index()]; }
        }
        node* r = pool[index()];
        bool all = model.size() <= 400;
        auto before = all ? present() : std::unordered_map<Key, node*, KeyHash>();
        VP_LOG("insert %s -> %zu", text(k).c_str(), where(r));
        cache.cache_insert(k[0], k[1], k[2], r);
        model[k] = r;
        recent.push_back(k);
        node* x = cache.cache_lookup(k[0], k[1], k[2]);
        VP_CHECK(x == r, "a result just inserted for %s is not found", text(k).c_str());
        if(all) {
            size_t lost = 0;
            for(auto& [k2, r2] : before) if(k2 != k) {
                node* y = cache.cache_lookup(k2[0], k2[1], k2[2]);
                VP_CHECK(y == nullptr || y == r2, "inserting changed the result found for %s", text(k2).c_str());
                lost += y == nullptr;
            }
            VP_CHECK(lost <= 1, "one insertion made %zu other results disappear", lost);
            if(lost) label("insertion replaces a result");
        }
        ++inserts;
    }
    void lookup()
    {
        Key k = draw_key();
        if(!recent.empty() && s.chance(2, 3)) {
            k = recent[s.draw(recent.size() - 1)];
            switch(s.draw(4)) { case 0: case 1: break; case 2: std::swap(k[0], k[1]); break; case 3: k[2] = symbol(s.draw(2), 0); break; default: k = {k[1], k[2] > memo_struct::xor_symb() ? k[2] : k[0], k[0]}; }
        }
        VP_LOG("lookup %s", text(k).c_str());
        look(k, "lookup");
    }
    void hold()
    {
        size_t i = s.draw(pool.size() - 1);
        if(i < 2) return;
        if(held[i]) { pool[i]->xref--; held[i] = 0; VP_LOG("let go of node %zu, %d references", i, pool[i]->xref); }
        else { pool[i]->xref++; held[i] = 1; VP_LOG("hold node %zu", i); }
    }
    bool dead(const Key& k, node* r)
    {
        for(node* p : {k[0], k[1], k[2], r}) if((uintptr_t)p > 100 && p->xref <= 0) return true;
        return false;
    }
    void purge()
    {
        auto before = present();
        VP_LOG("purge");
        cache.purge();
        size_t gone = 0, stay = 0;
        for(auto it = model.begin(); it != model.end();) {
            const Key k = it->first;
            node* r = cache.cache_lookup(k[0], k[1], k[2]);
            if(dead(k, it->second)) {
                VP_CHECK(r == nullptr, "after a purge the result for %s is found although a node of it is not referenced", text(k).c_str());
                it = model.erase(it);
                ++gone;
            } else {
                auto b = before.find(k);
                VP_CHECK(r == (b == before.end() ? nullptr : b->second), "a purge changed the result found for %s, all nodes of which are referenced", text(k).c_str());
                ++it;
                stay += r != nullptr;
            }
        }
        if(gone && stay) { label("purge keeps some and drops some"); mixed = true; }
    }
    // many insertions; what a key was given follows from the key
    void bulk()
    {
        size_t n = s.pick({5, 2}) == 0 ? s.range(10, 3000) : s.chance(3, 4) ? s.range(3001, 60000) : s.chance(5, 6) ? s.range(60001, 300000) : s.range(300001, 1500000);
        if(tier == 1 && s.chance(1, 50)) n = 6000000;
        uint64_t seed = s.draw(1000000);
        // enough nodes for the keys to differ
        while(pool.size() < 400) add_node();
        VP_LOG("insert %zu at once", n);
        std::unordered_map<Key, node*, KeyHash> mine;
        bool keep = n <= 60000;
        auto key = [&](size_t i) -> Key { uint64_t h = mix(seed + i), h2 = mix(h); size_t k = h2 % 5; return {pool[h % pool.size()], pool[(h >> 32) % pool.size()], symbol(k > 2 ? 3 : k, h2 >> 20)}; };
        auto result = [&](const Key& k) { return pool[KeyHash()(k) % pool.size()]; };
        if(!keep) model.clear(); // results for earlier keys may have been replaced by others
        bulk_seed = seed; 
        for(size_t i = 0; i < n; ++i) {
            Key k = key(i);
            node* r = result(k);
            cache.cache_insert(k[0], k[1], k[2], r);
            if(keep) model[k] = r;
            if((i & 63) == 0) { VP_CHECK(cache.cache_lookup(k[0], k[1], k[2]) == r, "a result just inserted (%zu of many) is not found", i); }
        }
        size_t found = 0, looked = 0;
        for(size_t i = 0; i < n; i += 1 + n / 50000) {
            Key k = key(i);
            node* r = cache.cache_lookup(k[0], k[1], k[2]);
            VP_CHECK(r == nullptr || r == result(k), "the result found for an insertion of many is another");
            ++looked; found += r != nullptr;
            // the same with another operation and with operands exchanged: nothing or what was inserted for that
            Key o{k[1], k[0], k[2]};
            r = cache.cache_lookup(o[0], o[1], o[2]);
            VP_CHECK(r == nullptr || r == result(o) || !keep || (model.count(o) && model[o] == r), "the result found with operands exchanged was not inserted for them");
        }
        if(hash_mode() <= HASH_SEEDED && n <= 2000000 && looked >= 256) VP_CHECK(found * 2 >= looked, "only %zu of %zu results of %zu inserted in a row are found", found, looked, n);
        ++bulks;
        if(n > 300000) label("more than 300000 results"); else if(n > 60000) label("more than 60000 results"); else if(n > 3000) label("more than 3000 results"); else label("10 to 3000 results in a row");
        if(!keep) { // the old keys are not followed any further: forget everything
            for(size_t i = 2; i < pool.size(); ++i) pool[i]->xref -= 1000000;
            cache.purge();
            for(size_t i = 0; i < n; i += 1 + n / 20000) { Key k = key(i); if(k[0] != pool[0] && k[0] != pool[1]) VP_CHECK(cache.cache_lookup(k[0], k[1], k[2]) == nullptr, "after a purge a result of unreferenced nodes is found"); }
            for(size_t i = 2; i < pool.size(); ++i) pool[i]->xref += 1000000;
            // results on terminals only may be left
            for(node* f : {pool[0], pool[1]}) for(node* g : {pool[0], pool[1]}) for(size_t k = 0; k < 5; ++k) {
                Key t{f, g, k < 3 ? symbol(k, 0) : pool[k - 3]};
                node* r = cache.cache_lookup(t[0], t[1], t[2]);
                if(r != nullptr) { VP_CHECK(r == pool[0] || r == pool[1], "after a purge a result that is not referenced is found"); model[t] = r; }
            }
            recent.clear();
        } else for(size_t i = 0; i < n && recent.size() < 200; i += 1 + n / 100) recent.push_back(key(i));
    }
    void finish() { for(auto& [k, r] : model) look(k, "at the end"); }

    Src& s;
    bdd_node_cache nodes;
    memo_cache cache;
    std::vector<node*> pool;
    std::vector<char> held;
    std::unordered_map<Key, node*, KeyHash> model;
    std::vector<Key> recent;
    uint64_t bulk_seed = 0;
    size_t inserts = 0, hits = 0, bulks = 0;
    bool mixed = false;
};

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    Cache c(s);
    size_t steps = s.range(3, 120);
    unsigned bulky = s.chance(1, 5) ? 3 : 0;
    size_t purges = 0;
    for(size_t i = 0; i < steps; ++i) {
        switch(s.pick({24, 10, 8, 3, c.bulks < 3 ? bulky : 0})) {
            case 0: c.insert(); break;
            case 1: c.lookup(); break;
            case 2: c.hold(); break;
            case 3: c.purge(); ++purges; break;
            default: c.bulk();
        }
    }
    c.finish();
    if(c.hits >= 5 && (purges > 0 || c.bulks > 0)) nontrivial();
}

const Property vp::property = {"C24", "insertions, lookups, purges and bursts of insertions on one cache of operation results over nodes of its own; non-trivial: at least five lookups found a result, and a purge or a burst took place", run, 12000, 3000, 200000, 40000, 30};
