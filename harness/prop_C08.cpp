// C08: renaming variables in a manager. Oracle: renaming in the reference package.
#include "model.h"
#include <deque>
#include <array>
using namespace vp;

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 9, 24};
    World w(s, draw_variables(s, maxvars[profile]), false);
    w.s_check_operands = false;
    w.huge_one_in = 60;
    w.start();
    size_t steps = s.range(2, w.huge ? 8 : 20), renamed = 0, real = 0;
    for(size_t i = 0; i < steps; ++i) {
        switch(s.pick({9, 3, 2, 2, 1, 1, 1})) {
            case 0: {
                Item a = w.operand();
                std::vector<size_t> sup = w.rb.support(a.f);
                // increasing images for the support, in one of several relations to the old variables
                std::vector<size_t> img;
                size_t rel = s.pick({3, 3, 3, 2, 2, 1});
                size_t nv = w.mgr->nr_variables();
                if(!sup.empty()) switch(rel) {
                    case 0: { size_t d = s.range(1, 6); for(size_t v : sup) img.push_back(v + d); break; }                 // shift up
                    case 1: for(size_t j = 0; j < sup.size(); ++j) img.push_back(j); break;                                 // compact
                    case 2: { size_t c = s.draw(6); for(size_t j = 0; j < sup.size(); ++j) { img.push_back(c); c += 1 + s.draw(3); } break; }
                    case 3: { size_t c = nv + s.draw(4); for(size_t j = 0; j < sup.size(); ++j) { img.push_back(c); c += 1 + s.draw(2); } label("images are new variables"); break; }
                    case 4: img = sup; { size_t j = s.draw(sup.size() - 1); size_t hi = j + 1 < sup.size() ? sup[j + 1] - 1 : sup[j] + 5; size_t lo = j > 0 ? sup[j - 1] + 1 : 0; if(hi < lo) hi = lo; img[j] = s.range(lo, hi); } break; // one variable moves
                    default: { size_t d = s.draw(sup[0]); for(size_t v : sup) img.push_back(v - d); }                        // shift down
                }
                if(rel <= 3 && !img.empty() && s.chance(1, 60) && nv < 5000) { // far away
                    size_t d = s.coin() ? 65530 : 4090;
                    size_t from = s.coin() ? 0 : s.draw(img.size() - 1);
                    for(size_t j = from; j < img.size(); ++j) img[j] += d;
                    label("images beyond 4000");
                }
                if(nv > 80000) for(size_t j = 0; j < img.size(); ++j) img[j] = j; // keep the manager small
                std::map<size_t, size_t> mp, inv;
                for(size_t j = 0; j < sup.size(); ++j) { mp[sup[j]] = img[j]; inv[img[j]] = sup[j]; }
                F want = w.rb.rename(a.f, [&](uint64_t v) { return mp[v]; });
                // entries outside the support
                std::map<size_t, size_t> ext = mp;
                if(s.chance(1, 2)) {
                    for(unsigned k = s.range(1, 4); k > 0; --k) { size_t v = s.draw(nv + 3); if(!ext.count(v)) ext[v] = s.draw(nv + 2); }
                    label("entries outside the support");
                }
                size_t before = w.mgr->nr_variables();
                bool form = s.coin(), both = s.chance(1, 3);
                node_ref r;
                VP_LOG("rename %s with %zu entries, relation %zu, %s", w.rb.text(a.f).c_str(), ext.size(), rel, form ? "vector" : "map");
                auto by_map = [&]() -> node_ref {
                    if(s.coin()) return w.mgr->rebase(a.h, ext);
                    std::unordered_map<size_t, size_t> u(ext.begin(), ext.end());
                    return w.mgr->rebase(a.h, u);
                };
                auto by_vector = [&]() -> node_ref {
                    size_t len = ext.empty() ? s.draw(2) : ext.rbegin()->first + 1 + s.draw(2);
                    std::vector<size_t> v(len);
                    size_t fill = s.draw(2); // what the unused entries contain
                    for(size_t j = 0; j < len; ++j) v[j] = fill == 0 ? 0 : fill == 1 ? j : mix(j) % (before + 3);
                    for(auto [x, y] : ext) v[x] = y;
                    if(len == 0) label("empty vector map");
                    if(s.coin()) return w.mgr->rebase(a.h, v.begin(), v.end());
                    if(s.coin()) { std::deque<size_t> d(v.begin(), v.end()); return w.mgr->rebase(a.h, d.cbegin(), d.cend()); }
                    return w.mgr->rebase(a.h, v.data(), v.data() + v.size());
                };
                r = form ? by_vector() : by_map();
                if(both) { node_ref r2 = form ? by_map() : by_vector(); VP_CHECK(r == r2, "map and vector form give different handles"); label("both forms compared"); }
                size_t need = img.empty() ? 0 : img.back() + 1;
                VP_CHECK(w.mgr->nr_variables() >= std::max(before, need), "%zu variables after renaming to variable %zu (%zu before)", w.mgr->nr_variables(), need, before);
                w.check_same(a);
                { Reader rd(w.rb); VP_CHECK(rd(a.h) == a.f, "renaming changed the original"); }
                if(s.chance(1, 6)) { w.op_gc(); { Reader rd(w.rb); VP_CHECK(rd(a.h) == a.f && rd(r) == want, "renaming and collecting changed a diagram"); } }
                check_denotes(w.rb, r, want, "renamed diagram");
                // and back
                node_ref back = w.mgr->rebase(r, inv);
                VP_CHECK(back == a.h, "renaming back gives another handle");
                if(!sup.empty()) { std::vector<size_t> iv(img.back() + 1); for(auto [x, y] : inv) iv[x] = y; VP_CHECK(w.mgr->rebase(r, iv.begin(), iv.end()) == a.h, "renaming back with a vector gives another handle"); }
                for(size_t v : img) if(std::find(w.vars.begin(), w.vars.end(), v) == w.vars.end() && w.vars.size() < 40) w.vars.insert(std::upper_bound(w.vars.begin(), w.vars.end(), v), v);
                w.result(r, want, "renamed diagram");
                ++renamed;
                if(want != a.f && w.rb.size(a.f) >= 2) ++real;
                if(sup.empty()) label("constant");
                bool overlap = false;
                for(size_t j = 0; j < img.size(); ++j) if(img[j] != sup[j] && std::binary_search(sup.begin(), sup.end(), img[j])) overlap = true;
                if(overlap) label("images overlap old variables");
                if(w.rb.size(a.f) > 50) label("more than 50 nodes");
                break;
            }
            case 1: w.op_binary(); break;
            case 2: w.op_dense(8); break;
            case 3: w.op_ite(); break;
            case 4: w.op_negate(); break;
            case 5: w.op_drop(); break;
            default: w.op_gc(); break;
        }
    }
    w.check_pool("at the end");
    if(renamed > 0 && real > 0) nontrivial();
}

const Property vp::property = {"C08", "order-preserving maps of the support (shifts, compaction, gaps, new variables, single moves, extra entries) in associative and vector form applied to random diagrams, renamed back, between other operations; non-trivial: a diagram of at least two nodes got a different function", run, 15000, 3000, 200000, 40000, 20};
