// C23: storage is used again and given back. Oracle: bytes obtained through operator new and not yet given back, counted by
// replaced allocation functions. (a) A program of operations repeated with a new manager and collection leaves not one byte
// behind. (b) Work repeated on one collection or one table, with nothing kept, reaches a level of storage and stays there.
#include "program.h"
#include <new>
#include <malloc.h>
using namespace vp;

static int64_t g_bytes = 0, g_blocks = 0;
static void* take(size_t n)
{
    void* p = malloc(n ? n : 1);
    if(p == nullptr) throw std::bad_alloc();
    g_bytes += malloc_usable_size(p); ++g_blocks;
    return p;
}
static void* take(size_t n, size_t al)
{
    void* p = aligned_alloc(al, (n + al - 1) / al * al);
    if(p == nullptr) throw std::bad_alloc();
    g_bytes += malloc_usable_size(p); ++g_blocks;
    return p;
}
static void give(void* p) { if(p != nullptr) { g_bytes -= malloc_usable_size(p); --g_blocks; free(p); } }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new(size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }

// (a) programs, everything destroyed
static void programs(Src& s)
{
    static const size_t maxvars[] = {5, 8, 14};
    RB rb;
    std::vector<size_t> vars = draw_variables(s, maxvars[s.pick({4, 4, 1})]);
    std::vector<Op> prog = draw_program(s, vars, 4, 40);
    Env env = draw_env(s);
    size_t rounds = s.range(1, 3);
    auto once = [&](bool last) {
        {
            Exec e(rb, vars, env);
            for(size_t r = 0; r < rounds; ++r) { for(size_t i = 0; i < prog.size(); ++i) e.step(prog[i], i); if(r + 1 < rounds) e.clear(); }
            e.finish();
            e.teardown();
        }
        (void)last;
    };
    once(false);
    once(false); // static storage and the reference package have their final size now
    int64_t b = g_bytes, k = g_blocks;
    once(true);
    VP_CHECK(g_bytes == b && g_blocks == k, "%ld bytes in %ld blocks were not given back when manager, collection and handles were gone", (long)(g_bytes - b), (long)(g_blocks - k));
    label("programs, everything destroyed");
    if(prog.size() >= 10) nontrivial();
}

// (b) a collection that is filled and emptied again and again
static void refilled(Src& s)
{
    static const size_t maxvars[] = {4, 8};
    RB rb;
    std::vector<size_t> vars = draw_variables(s, maxvars[s.pick({2, 4})]);
    std::vector<Op> prog;
    for(Op& o : draw_program(s, vars, 8, 40)) prog.push_back(o);
    prog.push_back({C_ADD, s.draw(255), 1, 0, 0});
    prog.push_back({C_AND, s.draw(255), s.draw(255), 0, 0});
    bdd_collection col;
    size_t cycles = s.range(8, 20);
    int64_t level = 0, worst = 0;
    VP_LOG("%zu cycles", cycles);
    for(size_t c = 0; c < cycles; ++c) {
        {
            // the same operations with a new manager, the collection stays
            set_hash_mode(HASH_SEEDED, 7);
            Rng rng{c * 0};
            bdd_mgr m;
            std::vector<Item> pool;
            std::vector<F> model;
            for(size_t v : vars) pool.push_back({m.projection(v), rb.variable(v)});
            for(const Op& o : prog) {
                Item x = pool[o.a % pool.size()], y = pool[o.b % pool.size()];
                switch(o.kind) {
                    case BIN: { F f = o.c & 1 ? rb.conj(x.f, y.f) : rb.exor(x.f, y.f); if(rb.size(f) < 120) pool.push_back({o.c & 1 ? m.and_rec(x.h, y.h) : m.xor_rec(x.h, y.h), f}); break; }
                    case NEG: case ITE: case LIMITED: pool.push_back({m.negate(x.h), rb.neg(x.f)}); break;
                    case DENSE: case C_ADD: case COUNT: if(model.size() < 25) { col.add_bdd(x.h); model.push_back(x.f); } break;
                    case C_AND: case C_QUERY: if(!model.empty() && model.size() < 25) {
                        size_t i = o.a % model.size(), j = o.b % model.size();
                        F f = rb.conj(model[i], model[j]);
                        size_t n = rb.size(f) + 2;
                        if(n > 120) break;
                        size_t lim = o.c % 2 ? SIZE_MAX : std::max<size_t>(3, n - 1);
                        size_t r = col.bdd_and(i, j, lim);
                        VP_CHECK((r != SIZE_MAX) == (n <= lim), "conjunction accepted or refused wrongly");
                        if(n <= lim) model.push_back(f);
                        break;
                    }
                    case C_RANGE: if(!model.empty() && model.size() < 25) {
                        std::vector<size_t> idx; F f = 1; double w = 1;
                        for(size_t q = 0; q < 2 + o.a % 6; ++q) { idx.push_back((o.b + q * o.c) % model.size()); f = rb.conj(f, model[idx.back()]); w *= 1 + rb.size(model[idx.back()]) / 2.0; }
                        if(w > 3e4 || rb.size(f) > 120) break;
                        col.bdd_and(idx.begin(), idx.end()); model.push_back(f);
                        break;
                    }
                    case C_OR: if(!model.empty() && model.size() < 25) {
                        std::set<size_t> p, q; size_t v = vars[o.c % vars.size()], u = vars[o.d % vars.size()];
                        p.insert(v); if(u != v) q.insert(u);
                        F f = rb.disj(model[o.a % model.size()], rb.variable(v));
                        if(u != v) f = rb.disj(f, rb.neg(rb.variable(u)));
                        if(rb.size(f) > 120) break;
                        col.bdd_or_var(o.a % model.size(), p, q); model.push_back(f);
                        break;
                    }
                    case C_EXPORT: if(!model.empty()) { pool.push_back({o.b & 1 ? m.add_bdd(col, o.a % model.size()) : col.export_bdd(m, o.a % model.size()), model[o.a % model.size()]}); } break;
                    case C_REMOVE: if(!model.empty()) { size_t i = o.a % model.size(); col.remove(&i, &i + 1); model.erase(model.begin() + i); } break;
                    case C_BUILD: if(model.size() < 25) {
                        col.new_bdd();
                        auto a = col.add_bdd_node(vars[0]);
                        a.set_lo_to_0_terminal(); a.set_hi_to_1_terminal();
                        col.close_bdd();
                        model.push_back(rb.variable(vars[0]));
                        break;
                    }
                    case QUERY: if(!model.empty()) { std::ostringstream os; col.export_graphviz(o.a % model.size(), os); col.variables(o.a % model.size()); } break;
                    default: break;
                }
            }
            VP_CHECK(col.nr_bdds() == model.size(), "%zu entries, expected %zu", col.nr_bdds(), model.size());
            for(size_t i = 0; i < model.size(); ++i) check_entry(rb, col, i, model[i], "refilled collection");
            std::vector<size_t> all;
            for(size_t i = 0; i < model.size(); ++i) all.push_back(i);
            pool.clear();
            col.remove(all.begin(), all.end());
        }
        if(c == 3) level = g_bytes;
        if(c > 3) { worst = std::max(worst, g_bytes - level); VP_CHECK(g_bytes <= level, "storage grew by %ld bytes from the fourth to the %zu. time the same entries were made and removed", (long)(g_bytes - level), c + 1); }
    }
    label("collection filled and emptied");
    if(prog.size() >= 10) nontrivial();
}

// (c) tables that grow and shrink
static void breathing(Src& s)
{
    draw_hash_mode(s);
    if(hash_mode() == HASH_CONST || hash_mode() == HASH_LOW2 || hash_mode() == HASH_HIGH || hash_mode() == HASH_STRIDE || hash_mode() == HASH_SMALL) set_hash_mode(HASH_SEEDED, s.draw(1000));
    int64_t start = g_bytes;
    {
        bdd_mgr m;
        size_t cls = s.pick({2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1}); // the table of one variable reaches 2^(7+cls) slots or half of that
        size_t n = (size_t(33) << cls) + s.draw((size_t(30) << cls));
        size_t below = 2;
        while(below * below < n + below + 2) ++below;
        std::vector<node_ref> leaf;
        size_t top = s.draw(3);
        for(size_t i = 0; i < below; ++i) leaf.push_back(m.projection(top + 1 + i));
        size_t cycles = std::min<size_t>(20000, (size_t(1) << 20) / (size_t(64) << cls) * 5 / 4 + 8);
        size_t keep = s.pick({3, 1, 1});
        size_t mix_sizes = s.chance(1, 3);
        if(cycles * n > 3000000) cycles = 3000000 / n;
        VP_LOG("%zu nodes on one variable, %zu times", n, cycles);
        int64_t level = 0;
        std::vector<node_ref> kept;
        for(size_t c = 0; c < cycles; ++c) {
            size_t want = mix_sizes && (c & 1) ? n / 2 : n, made = 0;
            kept.clear();
            m.collect_garbage();
            for(size_t i = 0; i < below && made < want; ++i) for(size_t j = 0; j < below && made < want; ++j) if(i != j) { node_ref h = m.unique_find(top, leaf[i], leaf[j]); ++made; if(keep && made % 64 == 1 && kept.size() < keep * 4) kept.push_back(h); }
            VP_CHECK(m.nr_nodes() == 2 + below + made, "%zu nodes in the manager, expected %zu", m.nr_nodes(), 2 + below + made);
            m.collect_garbage();
            VP_CHECK(m.nr_nodes() == 2 + below + kept.size(), "%zu nodes after a collection, expected %zu", m.nr_nodes(), 2 + below + kept.size());
            if(c == 4) level = g_bytes;
            if(c > 4) VP_CHECK(g_bytes - level <= 65536, "storage grew by %ld bytes when %zu nodes were made and collected %zu times", (long)(g_bytes - level), n, c + 1);
        }
        char b[64]; snprintf(b, sizeof b, "table of 2^%zu slots filled and emptied", 7 + cls); label(b);
    }
    // what is left is what static storage and this function's labels took, not tables
    VP_CHECK(g_bytes - start < 262144, "%ld bytes left when the manager was gone", (long)(g_bytes - start));
    nontrivial();
}

// (d) operation caches are bounded: more results are computed than they can hold, over many collections
static void cached(Src& s)
{
    set_hash_mode(HASH_SEEDED, s.draw(1000));
    bdd_mgr m;
    size_t n = s.range(400, 900), op = s.draw(2);
    std::vector<node_ref> v;
    for(size_t i = 0; i < n; ++i) v.push_back(m.projection(i));
    size_t total = 0;
    int64_t level = -1;
    VP_LOG("all pairs of %zu variables, operation %zu", n, op);
    for(size_t rounds = 0; total < 10500000; ++rounds) {
        for(size_t i = 0; i < n; ++i) for(size_t k = 0; k < i; ++k) {
            if(op == 0) m.and_rec(v[i], v[k]); else if(op == 1) m.or_rec(v[i], v[k]); else m.ite_rec(v[k], m.botsink(), v[i]);
        }
        total += n * (n - 1) / 2;
        m.collect_garbage();
        VP_CHECK(m.nr_nodes() == n + 2, "%zu nodes left after a collection, expected %zu", m.nr_nodes(), n + 2);
        if(total >= 4700000 && level < 0) level = g_bytes;
    }
    VP_CHECK(g_bytes <= level, "the storage held grew by %ld bytes between the 4700000th and the %zu. result, with nothing more in use", (long)(g_bytes - level), total);
    label("more results than caches hold");
    nontrivial();
}

static void run(Src& s)
{
    switch(s.pick({12, 8, 1})) {
        case 0: programs(s); break;
        case 1: refilled(s); break;
        default:
#ifndef __SANITIZE_ADDRESS__
            if(s.chance(1, 30)) { cached(s); break; }
#endif
            breathing(s);
    }
}

const Property vp::property = {"C23", "programs repeated with new managers and collections, collections filled and emptied again and again, and tables of one variable growing and shrinking up to 20000 times, with every byte obtained through operator new counted; non-trivial: at least ten operations, or a table that was filled and emptied", run, 1800, 400, 60000, 10000, 60};
