// Programs of operations on one manager and one collection, executed under chosen conditions, with a log of all answers
// (C20: one program under several conditions; C21: several programs in several threads).
#pragma once
#include "colworld.h"

namespace vp {

struct Op { unsigned kind; uint64_t a, b, c, d; };

enum { PROJ, BIN, NEG, ITE, LIMITED, REBASE, DROP, GC, QUERY, COUNT, PRINT, ADDVAR, DENSE, C_ADD, C_AND, C_RANGE, C_OR, C_REMOVE, C_REBASE, C_EXPORT, C_QUERY, C_BUILD, NR_OPS };
inline const char* const op_name[] = {"projection", "and/or/xor", "negate", "ite", "limited and", "rename", "drop", "collect", "queries", "counting", "print", "add variable", "table",
    "store", "stored and", "stored range and", "stored or literals", "remove", "rename stored", "export", "stored queries", "node by node"};

struct Env { HashMode mode; uint64_t seed; unsigned noise; size_t base; bool stack_first; };

class Exec {
public:
    Exec(RB& rb, const std::vector<size_t>& vars, Env env) : rb(rb), vars(vars), env(env), rng{env.seed * 77 + 5}, mgr(new bdd_mgr), col(new bdd_collection)
    {
        enter();
        if(env.base > 0) { // entries that are there before
            bdd_mgr m;
            for(size_t i = 0; i < env.base; ++i) { F f = rb.mk(i, i & 1, 1 - (i & 1)); F g = rb.mk(0, f < 2 ? f : 0, 1); pre.push_back(rng.next() % 3 == 0 ? 1 : g); col->add_bdd(build(rb, m, pre.back())); }
        }
        leave();
    }
    std::vector<uint64_t> log;
    size_t skipped = 0;
    void step(const Op& o, size_t nr)
    {
        enter();
        if(env.noise) disturb();
        cur = nr;
        log.push_back(0xabcd0000 + o.kind);
        perform(o);
        log.push_back(pool.size());
        log.push_back(model.size());
        if(!freed) log.push_back(mgr->nr_nodes());
        VP_CHECK(col->nr_bdds() == env.base + model.size(), "%s: %zu entries, expected %zu", op_name[o.kind], col->nr_bdds(), env.base + model.size());
        leave();
    }
    void finish()
    {
        enter();
        for(Item& i : pool) { Reader rd(rb); VP_CHECK(rd(i.h) == i.f, "a held diagram denotes another function at the end"); log.push_back(i.h.nr_nodes()); }
        for(size_t e = 0; e < model.size(); ++e) check_entry(rb, *col, env.base + e, model[e], "at the end");
        for(size_t e = 0; e < pre.size(); ++e) { F got = entry_function(rb, *col, e, "earlier entry"); VP_CHECK(got == pre[e], "an earlier entry changed"); }
        mgr->collect_garbage();
        log.push_back(mgr->nr_nodes());
        leave();
    }
    // everything that is kept is given up; manager and collection stay
    void clear()
    {
        enter();
        pool.clear();
        mgr->collect_garbage();
        VP_CHECK(mgr->nr_nodes() == 2, "%zu nodes left without handles", mgr->nr_nodes());
        std::vector<size_t> all;
        for(size_t i = 0; i < model.size(); ++i) all.push_back(env.base + i);
        col->remove(all.begin(), all.end());
        model.clear();
        log.clear();
        leave();
    }
    // everything goes, in an order of its own
    void teardown()
    {
        if(!mgr) return;
        enter();
        uint64_t how = env.noise ? rng.next() : 0;
        if(how & 1) col.reset();
        while(!pool.empty()) { if(how & 2) std::swap(pool[rng.next() % pool.size()], pool.back()); pool.pop_back(); }
        if(how & 4) { mgr->collect_garbage(); VP_CHECK(mgr->nr_nodes() == 2, "%zu nodes left without handles", mgr->nr_nodes()); }
        mgr.reset();
        col.reset();
        others.clear(); other_handles.clear(); other_cols.clear();
        leave();
    }
private:
    RB& rb;
    std::vector<size_t> vars;
    Env env;
    Rng rng;
    uint64_t hstate = 1;
    std::unique_ptr<bdd_mgr> mgr;
    std::unique_ptr<bdd_collection> col;
    std::vector<Item> pool;
    std::vector<F> model, pre;
    bool freed = false;
    size_t cur = 0;
    struct Other { std::unique_ptr<bdd_mgr> m; std::vector<node_ref> h; Other() : m(new bdd_mgr) {} ~Other() { h.clear(); } };
    std::vector<std::unique_ptr<Other>> others;
    std::vector<node_ref> other_handles;
    std::vector<std::unique_ptr<bdd_collection>> other_cols;

    void enter() { set_hash_mode(env.mode, env.seed); hash_state() = hstate * 1000003 + env.seed; }
    void leave() { hstate += 1 + hash_state() % 1000; }

    void disturb()
    {
        for(unsigned k = rng.next() % (env.noise + 1); k > 0; --k) switch(rng.next() % 8) {
            case 0: { std::vector<void*> v; unsigned n = rng.next() % 6; for(unsigned i = 0; i < n; ++i) { size_t sz = 16 << rng.next() % 14; void* p = malloc(sz); memset(p, rng.next() & 0xff, sz); v.push_back(p); } for(void* p : v) { asm volatile("" ::"r"(p) : "memory"); free(p); } break; }
            case 1: { void* p = malloc(9u << 20); memset(p, rng.next() % 2 ? 0xff : 0x5a, 9u << 20); asm volatile("" ::"r"(p) : "memory"); free(p); break; }
            case 2: if(others.size() < 3) others.emplace_back(new Other); break;
            case 3: if(!others.empty()) { size_t i = rng.next() % others.size(); others.erase(others.begin() + i); } break;
            case 4: case 5: if(!others.empty()) {
                Other& o = *others[rng.next() % others.size()];
                for(unsigned i = 0; i < 6; ++i) {
                    node_ref x = o.m->projection(rng.next() % 12);
                    if(o.h.empty()) { o.h.push_back(x); continue; }
                    node_ref y = o.h[rng.next() % o.h.size()];
                    node_ref r;
                    switch(rng.next() % 5) { case 0: r = o.m->and_rec(x, y); break; case 1: r = o.m->or_rec(x, y); break; case 2: r = o.m->xor_rec(x, y); break; case 3: r = o.m->negate(y); break; default: r = o.m->ite_rec(y, x, o.h[rng.next() % o.h.size()]); }
                    if(r.nr_nodes() < 60) { if(o.h.size() < 12) o.h.push_back(r); else o.h[rng.next() % o.h.size()] = r; }
                }
                if(rng.next() % 4 == 0) { o.h.resize(1 + rng.next() % o.h.size()); o.m->collect_garbage(); }
                if(!other_cols.empty()) { bdd_collection& c = *other_cols[rng.next() % other_cols.size()]; c.add_bdd(o.h[rng.next() % o.h.size()]); if(c.nr_bdds() > 1 && c.nr_bdds() < 12) c.bdd_and(size_t(0), c.nr_bdds() - 1); }
                break;
            }
            case 6: if(other_cols.size() < 3) other_cols.emplace_back(new bdd_collection); else other_cols.erase(other_cols.begin()); break;
            default: { std::vector<Item> copy(pool); std::vector<Item> copy2; for(Item& i : copy) copy2.insert(copy2.begin() + rng.next() % (copy2.size() + 1), i); copy.clear(); break; } // handle traffic without effect
        }
    }
    void vars_upto(size_t v) { while(mgr->nr_variables() <= v) mgr->add_variable(); }
    Item& at(uint64_t i) { return pool[i % pool.size()]; }
    bool big(F f) { if(rb.size(f) > 150) { ++skipped; return true; } return false; }
    void keep(node_ref h, F f, const char* what)
    {
        Reader rd(rb);
        F got = rd(h);
        VP_CHECK(got == f, "%s: denotes %s, expected %s", what, rb.text(got, 12).c_str(), rb.text(f, 12).c_str());
        log.push_back(f);
        log.push_back(h.nr_nodes());
        for(size_t i = 0; i < pool.size(); ++i) if(pool[i].h == h) { VP_CHECK(pool[i].f == f, "%s: handle of another function", what); log.push_back(i); break; }
        if(pool.size() < 25) pool.push_back({h, f}); else pool[cur % 25] = {h, f};
    }
    void stored(size_t nr, F f, const char* what)
    {
        VP_CHECK(nr == env.base + model.size(), "%s: returned %zu, expected %zu", what, nr, env.base + model.size());
        model.push_back(f);
        check_entry(rb, *col, nr, f, what);
        log.push_back(f);
        log.push_back(col->nr_bdd_nodes(nr));
    }
    size_t E(uint64_t i) { return env.base + i % model.size(); }
    F M(uint64_t i) { return model[i % model.size()]; }
    void perform(const Op& o)
    {
        const bool none = pool.empty(), empty = model.empty();
        switch(o.kind) {
            case PROJ: { size_t v = vars[o.a % vars.size()]; keep(mgr->projection(v), rb.variable(v), "projection"); log.push_back(mgr->nr_variables()); break; }
            case BIN: {
                if(none) break;
                Item x = at(o.a), y = at(o.b);
                F f = o.c % 3 == 0 ? rb.conj(x.f, y.f) : o.c % 3 == 1 ? rb.disj(x.f, y.f) : rb.exor(x.f, y.f);
                if(big(f)) break;
                keep(o.c % 3 == 0 ? mgr->and_rec(x.h, y.h) : o.c % 3 == 1 ? mgr->or_rec(x.h, y.h) : mgr->xor_rec(x.h, y.h), f, "and/or/xor");
                break;
            }
            case NEG: if(!none) { Item x = at(o.a); keep(mgr->negate(x.h), rb.neg(x.f), "negate"); } break;
            case ITE: {
                if(none) break;
                Item x = at(o.a), y = at(o.b), z = at(o.c);
                F f = rb.ite(x.f, y.f, z.f);
                if(big(f)) break;
                keep(mgr->ite_rec(x.h, y.h, z.h), f, "ite");
                break;
            }
            case LIMITED: {
                if(none) break;
                Item x = at(o.a), y = at(o.b);
                F f = rb.conj(x.f, y.f);
                if(big(f)) break;
                size_t n = rb.size(f), lim = o.c % 4 == 0 ? n : o.c % 4 == 1 ? n + 1 : o.c % 4 == 2 ? n / 2 : n + 5;
                auto [h, k] = mgr->and_rec_limited(x.h, y.h, lim);
                log.push_back(k);
                VP_CHECK((h.address() != nullptr) == (n < lim), "limited conjunction with limit %zu: %s, the result has %zu nodes", lim, h.address() ? "accepted" : "refused", n);
                if(h.address() != nullptr) { VP_CHECK(k == n, "limited conjunction: count %zu, the result has %zu nodes", k, n); keep(h, f, "limited conjunction"); }
                break;
            }
            case REBASE: {
                if(none) break;
                Item x = at(o.a);
                std::map<size_t, size_t> m;
                size_t d = o.b % 4;
                std::vector<size_t> sup = rb.support(x.f);
                if(!sup.empty() && sup.back() > vars.back() + 10) d = 0;
                for(size_t i = 0; i < sup.size(); ++i) m[sup[i]] = d == 0 ? i : sup[i] + d;
                F f = rb.rename(x.f, [&](uint64_t v) { return m[v]; });
                if(o.c & 1) { std::vector<size_t> v(sup.empty() ? 0 : sup.back() + 1, 0); for(auto [p, q] : m) v[p] = q; keep(mgr->rebase(x.h, v.begin(), v.end()), f, "rename"); }
                else keep(mgr->rebase(x.h, m), f, "rename");
                log.push_back(mgr->nr_variables());
                break;
            }
            case DROP: for(uint64_t k = 1 + o.a % 5; k > 0 && pool.size() > 2; --k) { std::swap(pool[(o.b + k * 7) % pool.size()], pool.back()); pool.pop_back(); } break;
            case GC: {
                std::set<F> live;
                for(Item& i : pool) for(F x : rb.reach(i.f)) live.insert(x);
                mgr->collect_garbage();
                freed = true;
                VP_CHECK(mgr->nr_nodes() == 2 + live.size(), "%zu nodes after a collection, %zu reachable", mgr->nr_nodes(), 2 + live.size());
                log.push_back(mgr->nr_nodes());
                break;
            }
            case QUERY: {
                if(none) break;
                Item x = at(o.a);
                log.push_back(x.h.nr_nodes());
                for(size_t v : x.h.variables()) log.push_back(v);
                VP_CHECK(x.h.variables() == rb.support(x.f) && x.h.nr_nodes() == rb.size(x.f), "queries are wrong");
                log.push_back(x.h.exactly_one_solution());
                for(int form = 0; form < 2; ++form) { Reader rd(rb); std::vector<F> fs; for(node_ref& n : form ? x.h.nodes_bfs() : x.h.nodes_postorder()) fs.push_back(rd(n)); std::sort(fs.begin(), fs.end()); for(F f : fs) log.push_back(f); }
                std::vector<char> as = sample_assignment(o.b, std::max(mgr->nr_variables(), vars.back() + 1));
                log.push_back(x.h.evaluate(as.begin(), as.end()));
                if(!x.h.is_terminal()) log.push_back(x.h.find_bdd_mgr() == mgr.get());
                break;
            }
            case COUNT: {
                if(none) break;
                size_t n = 1 + o.a % 4, b = o.b % 5;
                std::vector<node_ref> hs; std::vector<F> fs;
                for(size_t i = 0; i < n; ++i) { Item& x = at(o.c + i * 3); hs.push_back(x.h); fs.push_back(x.f); }
                std::vector<F> cnt(n + 1, 0); cnt[0] = 1;
                for(F x : fs) for(size_t k = n + 1; k-- > 0;) cnt[k] = rb.ite(x, k ? cnt[k - 1] : 0, cnt[k]);
                F f = 0;
                int kind = o.d % 3;
                for(size_t k = 0; k <= n; ++k) if(kind == 0 ? k >= b : kind == 1 ? k <= b : k == b) f = rb.disj(f, cnt[k]);
                if(big(f)) break;
                keep(kind == 0 ? mgr->at_least(hs.begin(), hs.end(), b) : kind == 1 ? mgr->at_most(hs.begin(), hs.end(), b) : mgr->cardinality(hs.begin(), hs.end(), b), f, "counting");
                break;
            }
            case PRINT: {
                if(none) break;
                Item x = at(o.a);
                std::ostringstream os;
                x.h.print(os);
                std::string t = os.str();
                log.push_back(std::count(t.begin(), t.end(), '>'));
                VP_CHECK((size_t)std::count(t.begin(), t.end(), '>') == 2 * rb.size(x.f), "printed text lists a wrong number of arcs");
                break;
            }
            case ADDVAR: if(mgr->nr_variables() < vars.back() + 20) log.push_back(mgr->add_variable()); break;
            case DENSE: {
                std::vector<size_t> vs = vars;
                while(vs.size() > 7) vs.erase(vs.begin() + (o.b + vs.size()) % vs.size());
                std::function<F(size_t, uint64_t)> go = [&](size_t i, uint64_t p) -> F { if(i == vs.size()) return mix(o.a * 977 ^ p) & 1; F l = go(i + 1, 2 * p), u = go(i + 1, 2 * p + 1); return rb.mk(vs[i], l, u); };
                F f = go(0, 1);
                vars_upto(vars.back());
                keep(build(rb, *mgr, f), f, "table");
                break;
            }
            case C_ADD: { if(model.size() >= 20) break; if(none || o.b % 8 == 0) { stored(col->add_bdd(o.a & 1 ? mgr->topsink() : mgr->botsink()), o.a & 1, "store"); break; } Item x = at(o.a); stored(col->add_bdd(x.h), x.f, "store"); break; }
            case C_AND: {
                if(empty || model.size() >= 20) break;
                F f = rb.conj(M(o.a), M(o.b));
                if(big(f)) break;
                size_t n = rb.size(f) + 2, lim = o.c % 3 == 0 ? SIZE_MAX : o.c % 3 == 1 ? std::max<size_t>(n, 3) : std::max<size_t>(n - 1, 3);
                size_t r = col->bdd_and(E(o.a), E(o.b), lim);
                if(n > lim) VP_CHECK(r == SIZE_MAX, "stored conjunction above the node limit accepted"); else stored(r, f, "stored conjunction");
                break;
            }
            case C_RANGE: {
                if(empty || model.size() >= 20) break;
                size_t n = 2 + o.a % 5;
                std::vector<size_t> idx; F f = 1; double work = 1;
                for(size_t i = 0; i < n; ++i) { idx.push_back(E(o.b + i * o.c)); F m = M(o.b + i * o.c); f = rb.conj(f, m); work *= 1 + rb.size(m) / 2.0; }
                if(work > 1e5 || big(f)) break;
                stored(col->bdd_and(idx.begin(), idx.end()), f, "stored range conjunction");
                break;
            }
            case C_OR: {
                if(empty || model.size() >= 20) break;
                std::set<size_t> p, q;
                for(unsigned i = 0; i < o.b % 4; ++i) p.insert(vars[(o.c + i * 5) % vars.size()]);
                for(unsigned i = 0; i < o.b / 4 % 4; ++i) { size_t v = vars[(o.d + i * 3) % vars.size()]; if(!p.count(v)) q.insert(v); }
                F f = M(o.a);
                for(size_t v : p) f = rb.disj(f, rb.variable(v));
                for(size_t v : q) f = rb.disj(f, rb.neg(rb.variable(v)));
                if(big(f)) break;
                stored(col->bdd_or_var(E(o.a), p, q), f, "stored disjunction");
                break;
            }
            case C_REMOVE: {
                if(empty) break;
                std::vector<size_t> rem; std::vector<F> m2;
                for(size_t i = 0; i < model.size(); ++i) if(mix(o.a + i) % (2 + o.b % 4) == 0) rem.push_back(env.base + i); else m2.push_back(model[i]);
                col->remove(rem.begin(), rem.end());
                model = m2;
                VP_CHECK(col->nr_bdds() == env.base + model.size(), "%zu entries after a removal, expected %zu", col->nr_bdds(), env.base + model.size());
                for(size_t i = 0; i < model.size(); ++i) check_entry(rb, *col, env.base + i, model[i], "removal");
                break;
            }
            case C_REBASE: {
                if(empty) break;
                std::vector<size_t> sup = rb.support(M(o.a));
                std::map<size_t, size_t> m;
                size_t d = o.b % 4;
                if(!sup.empty() && sup.back() > vars.back() + 10) d = 0;
                for(size_t i = 0; i < sup.size(); ++i) m[sup[i]] = d == 0 ? i : sup[i] + d;
                F f = rb.rename(M(o.a), [&](uint64_t v) { return m[v]; });
                col->rebase(E(o.a), m);
                model[o.a % model.size()] = f;
                check_entry(rb, *col, E(o.a), f, "renamed entry");
                break;
            }
            case C_EXPORT: {
                if(empty) break;
                F f = M(o.a);
                std::vector<size_t> sup = rb.support(f);
                if(!sup.empty()) vars_upto(sup.back());
                keep(o.b & 1 ? col->export_bdd(*mgr, E(o.a)) : mgr->add_bdd(*col, E(o.a)), f, "export");
                break;
            }
            case C_QUERY: {
                if(empty) break;
                for(size_t v : col->variables(E(o.a))) { log.push_back(v); log.push_back(col->nr_bdd_nodes(E(o.a), v)); }
                std::vector<char> as = sample_assignment(o.b, vars.back() + 60);
                log.push_back(col->evaluate(E(o.a), as.begin(), as.end()));
                std::ostringstream os;
                col->export_graphviz(E(o.a), os);
                std::string t = os.str();
                log.push_back(std::count(t.begin(), t.end(), '\n'));
                break;
            }
            default: { // a cube, node by node
                if(model.size() >= 20) break;
                std::vector<size_t> vs;
                for(size_t v : vars) if(mix(o.a + v) & 1) vs.push_back(v);
                if(vs.empty()) vs.push_back(vars[0]);
                size_t nr = col->new_bdd();
                std::vector<BDD::bdd_collection_node> n;
                F f = 1;
                for(size_t v : vs) n.push_back(col->add_bdd_node(v));
                for(size_t i = n.size(); i-- > 0;) {
                    bool pos = mix(o.b + i) & 1;
                    f = pos ? rb.mk(vs[i], 0, f) : rb.mk(vs[i], f, 0);
                    if(pos) { n[i].set_lo_to_0_terminal(); if(i + 1 < n.size()) n[i].set_hi_arc(n[i + 1]); else n[i].set_hi_to_1_terminal(); }
                    else { n[i].set_hi_to_0_terminal(); if(i + 1 < n.size()) n[i].set_lo_arc(n[i + 1]); else n[i].set_lo_to_1_terminal(); }
                }
                col->close_bdd();
                stored(nr, f, "node by node");
            }
        }
    }
};

inline void compare(const Exec& a, const Exec& b, const char* what)
{
    compared(a.log.size());
    size_t n = std::min(a.log.size(), b.log.size()), op = NR_OPS;
    for(size_t i = 0; i < n; ++i) {
        if(a.log[i] == b.log[i] && (a.log[i] >> 16) == 0xabcd) op = a.log[i] & 0xffff;
        if(a.log[i] != b.log[i]) fail("%s: answer %zu, in '%s', is %lu in one run and %lu in the other", what, i, op < NR_OPS ? op_name[op] : "at the end", (unsigned long)a.log[i], (unsigned long)b.log[i]);
    }
    if(a.log.size() != b.log.size()) fail("%s: %zu and %zu answers", what, a.log.size(), b.log.size());
}


inline std::vector<Op> draw_program(Src& s, const std::vector<size_t>& vars, size_t min_ops, size_t max_ops)
{
    size_t n = s.range(min_ops, max_ops);
    std::vector<Op> prog;
    for(size_t i = 0; i < std::min<size_t>(4, 1 + vars.size()); ++i) prog.push_back({PROJ, s.draw(255), 0, 0, 0});
    for(size_t i = 0; i < n; ++i) {
        Op o;
        o.kind = s.pick({2, 6, 2, 3, 2, 2, 2, 2, 2, 2, 1, 1, 2, 4, 3, 2, 2, 2, 2, 2, 2, 1});
        o.a = s.draw(255); o.b = s.draw(255); o.c = s.draw(255); o.d = s.draw(255);
        VP_LOG("%s %lu %lu %lu %lu", op_name[o.kind], (unsigned long)o.a, (unsigned long)o.b, (unsigned long)o.c, (unsigned long)o.d);
        prog.push_back(o);
    }
    return prog;
}
inline Env draw_env(Src& s)
{
    Env e;
    e.mode = (HashMode)s.pick({3, 4, 3, 2, 3, 2, 2});
    e.seed = s.draw(100000);
    e.noise = s.pick({1, 2, 2, 1});
    e.base = s.chance(1, 3) ? s.range(1, 4) : 0;
    e.stack_first = s.coin();
    VP_LOG("run with hash keys %s, seed %lu, disturbance %u, %zu earlier entries", hash_mode_name(e.mode), (unsigned long)e.seed, e.noise, e.base);
    char b[64]; snprintf(b, sizeof b, "hash keys: %s", hash_mode_name(e.mode)); label(b);
    if(e.base) label("earlier entries in the collection");
    if(e.noise > 1) label("other managers in between");
    return e;
}
}
