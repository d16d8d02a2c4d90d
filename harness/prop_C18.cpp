// C18: textual output. Oracle: a small parser of the DOT subset in use; the diagram read back from the text must be
// the printed one.
#include "colworld.h"
#include <fstream>
using namespace vp;

struct Dot {
    struct Node { std::string label; size_t declared = 0; };
    struct Edge { std::string from, to; std::map<std::string, std::string> attr; };
    std::map<std::string, Node> nodes; // declared by a node statement
    std::vector<Edge> edges;
};

// digraph ID? { statements }, with subgraphs, attribute assignments, node and edge statements
class Parser {
public:
    Parser(const std::string& t, const char* what) : t(t), what(what) { lex(); }
    Dot parse()
    {
        expect("digraph");
        if(peek() != "{") next();
        block();
        VP_CHECK(p == tok.size(), "%s: text after the closing brace", what);
        return std::move(d);
    }
private:
    const std::string& t;
    const char* what;
    std::vector<std::string> tok; // quoted strings keep one leading quote
    size_t p = 0;
    Dot d;
    void lex()
    {
        for(size_t i = 0; i < t.size();) {
            unsigned char c = t[i];
            if(isspace(c)) { ++i; continue; }
            if(c == '"') { size_t j = t.find('"', i + 1); VP_CHECK(j != std::string::npos, "%s: unterminated string", what); tok.push_back(t.substr(i, j - i)); i = j + 1; continue; }
            if(c == '-' && i + 1 < t.size() && t[i + 1] == '>') { tok.push_back("->"); i += 2; continue; }
            if(strchr("{}[];=,", c)) { tok.push_back(std::string(1, c)); ++i; continue; }
            VP_CHECK(isalnum(c) || c == '_' || c == '.' || c == '-', "%s: unexpected character '%c'", what, c);
            size_t j = i;
            while(j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_' || t[j] == '.')) ++j;
            if(j == i) fail("%s: unexpected character '%c'", what, c);
            tok.push_back(t.substr(i, j - i));
            i = j;
        }
    }
    std::string peek() const { return p < tok.size() ? tok[p] : ""; }
    std::string next() { VP_CHECK(p < tok.size(), "%s: text ends early", what); return tok[p++]; }
    void expect(const char* x) { std::string g = next(); VP_CHECK(g == x, "%s: '%s' where '%s' is expected", what, g.c_str(), x); }
    static std::string bare(const std::string& x) { return !x.empty() && x[0] == '"' ? x.substr(1) : x; }
    std::map<std::string, std::string> attributes()
    {
        std::map<std::string, std::string> a;
        while(peek() == "[") {
            next();
            while(peek() != "]") {
                std::string k = bare(next());
                expect("=");
                a[k] = bare(next());
                if(peek() == "," || peek() == ";") next();
            }
            next();
        }
        return a;
    }
    void block()
    {
        expect("{");
        while(peek() != "}") {
            std::string x = next();
            if(x == ";") continue;
            if(x == "subgraph") { if(peek() != "{") next(); block(); continue; }
            if(x == "{") { --p; block(); continue; }
            VP_CHECK(x[0] == '"' || isalnum((unsigned char)x[0]) || x[0] == '_', "%s: unexpected '%s'", what, x.c_str());
            if(peek() == "=") { next(); next(); continue; }
            if(peek() == "->") {
                std::vector<std::string> chain{bare(x)};
                while(peek() == "->") { next(); chain.push_back(bare(next())); }
                auto a = attributes();
                for(size_t i = 0; i + 1 < chain.size(); ++i) d.edges.push_back({chain[i], chain[i + 1], a});
                continue;
            }
            auto a = attributes();
            if(x == "graph" || x == "node" || x == "edge") continue;
            Dot::Node& n = d.nodes[bare(x)];
            if(a.count("label")) n.label = a["label"];
            ++n.declared;
        }
        next();
    }
};

struct Read { std::map<std::string, size_t> var; std::map<std::string, std::string> arc[2]; };

static bool number(const std::string& s, size_t& v)
{
    if(s.empty() || s.size() > 19) return false;
    v = 0;
    for(char c : s) { if(!isdigit((unsigned char)c)) return false; v = v * 10 + (c - '0'); }
    return true;
}

// the function of the diagram read from text; 'terminal' tells 0, 1 or -1
template<class T> static F rebuild(RB& rb, const Read& r, T&& terminal, const char* what)
{
    std::set<std::string> targets;
    for(auto& a : r.arc) for(auto& [x, y] : a) targets.insert(y);
    std::vector<std::string> roots;
    for(auto& [x, v] : r.var) if(!targets.count(x)) roots.push_back(x);
    VP_CHECK(roots.size() == 1, "%s: %zu nodes without an incoming arc", what, roots.size());
    std::map<std::string, F> done;
    size_t depth = 0;
    std::function<F(const std::string&)> go = [&](const std::string& x) -> F {
        int t = terminal(x);
        if(t >= 0) return t;
        auto it = done.find(x);
        if(it != done.end()) return it->second;
        VP_CHECK(r.var.count(x), "%s: an arc leads to %s, which is not listed", what, x.c_str());
        VP_CHECK(++depth < 20000, "%s: the arcs form a cycle", what);
        for(int b = 0; b < 2; ++b) VP_CHECK(r.arc[b].count(x), "%s: node %s has no %s arc", what, x.c_str(), b ? "high" : "low");
        F l = go(r.arc[0].at(x)), u = go(r.arc[1].at(x));
        --depth;
        F f = rb.ite(rb.variable(r.var.at(x)), u, l);
        done.emplace(x, f);
        return f;
    };
    F f = go(roots[0]);
    VP_CHECK(done.size() == r.var.size(), "%s: %zu of %zu listed nodes are reached", what, done.size(), r.var.size());
    return f;
}

static void check_print(World& w, node_ref h, F f)
{
    std::ostringstream os;
    h.print(os);
    std::string text = os.str();
    Dot d = Parser(text, "printed diagram").parse();
    Read r;
    auto terminal = [](const std::string& x) { return x == "bot" ? 0 : x == "top" ? 1 : -1; };
    for(auto& e : d.edges) {
        VP_CHECK(terminal(e.from) < 0, "an arc leaves a terminal");
        auto it = e.attr.find("label");
        VP_CHECK(it != e.attr.end() && (it->second == "0" || it->second == "1"), "an arc is labelled neither 0 nor 1");
        int b = it->second == "1";
        VP_CHECK(r.arc[b].emplace(e.from, e.to).second, "two %s arcs of node %s", b ? "high" : "low", e.from.c_str());
        size_t v;
        VP_CHECK(number(e.from.substr(0, e.from.find(',')), v), "node name %s does not start with its variable", e.from.c_str());
        r.var[e.from] = v;
    }
    VP_CHECK(d.edges.size() == 2 * w.rb.size(f), "%zu arcs printed, the diagram has %zu nodes", d.edges.size(), w.rb.size(f));
    if(f >= 2) {
        F got = rebuild(w.rb, r, terminal, "printed diagram");
        VP_CHECK(got == f, "the printed text describes %s, printed was %s", w.rb.text(got, 12).c_str(), w.rb.text(f, 12).c_str());
        VP_CHECK(r.var.size() == w.rb.size(f), "%zu nodes printed, expected %zu", r.var.size(), w.rb.size(f));
    } else label("constant printed");
    for(node_ref& x : reachable({h})) VP_CHECK(!x.marked(), "a node is left marked after printing");
    std::ostringstream again;
    h.print(again);
    VP_CHECK(again.str() == text, "printing again gives another text");
    if(w.rb.size(f) > 30) label("printed above 30 nodes");
}

static void check_graphviz(ColWorld& w, size_t nr, F f)
{
    std::ostringstream os;
    const bdd_collection& col = w.col;
    col.export_graphviz(nr, os);
    std::string text = os.str();
    Dot d = Parser(text, "exported entry").parse();
    Read r;
    std::map<std::string, int> term;
    for(auto& [x, n] : d.nodes) {
        VP_CHECK(n.declared == 1, "node %s is listed %zu times", x.c_str(), n.declared);
        size_t v;
        if(n.label == "top" || n.label == "bot") term[x] = n.label == "top";
        else { VP_CHECK(number(n.label, v), "node %s is labelled '%s'", x.c_str(), n.label.c_str()); r.var[x] = v; }
    }
    VP_CHECK(r.var.size() == w.rb.size(f), "entry %zu: %zu decision nodes listed, expected %zu", nr, r.var.size(), w.rb.size(f));
    VP_CHECK(term.size() == 2 && term.begin()->second != term.rbegin()->second, "entry %zu: %zu terminals listed", nr, term.size());
    size_t arcs = 0;
    for(auto& e : d.edges) {
        VP_CHECK(d.nodes.count(e.from) && d.nodes.count(e.to), "entry %zu: an arc from %s to %s, not both are listed", nr, e.from.c_str(), e.to.c_str());
        auto it = e.attr.find("style");
        std::string style = it == e.attr.end() ? "" : it->second;
        if(style == "invis") continue;
        VP_CHECK(style == "" || style == "dashed", "entry %zu: arc style '%s'", nr, style.c_str());
        VP_CHECK(!term.count(e.from), "entry %zu: an arc leaves a terminal", nr);
        int b = style == "";
        VP_CHECK(r.arc[b].emplace(e.from, e.to).second, "entry %zu: two %s arcs of node %s", nr, b ? "high" : "low", e.from.c_str());
        ++arcs;
    }
    VP_CHECK(arcs == 2 * w.rb.size(f), "entry %zu: %zu arcs listed for %zu decision nodes", nr, arcs, w.rb.size(f));
    if(f >= 2) {
        F got = rebuild(w.rb, r, [&](const std::string& x) { auto it = term.find(x); return it == term.end() ? -1 : it->second; }, "exported entry");
        VP_CHECK(got == f, "the exported text of entry %zu describes %s, stored is %s", nr, w.rb.text(got, 12).c_str(), w.rb.text(f, 12).c_str());
    } else label("constant exported");
    std::ostringstream again;
    col.export_graphviz(nr, again);
    VP_CHECK(again.str() == text, "exporting entry %zu again gives another text", nr);
    if(w.rb.size(f) > 30) label("exported above 30 nodes");
}

static void run(Src& s)
{
    draw_hash_mode(s);
    dirty_heap(s);
    size_t profile = s.pick({4, 4, 2});
    static const size_t maxvars[] = {5, 9, 24};
    std::vector<size_t> vars = draw_variables(s, maxvars[profile]);
    size_t steps = s.range(2, 18), outputs = 0, large = 0, printed = 0; // printed: nodes in outputs of large diagrams
    if(s.coin()) { // printing from a manager
        World w(s, vars, false);
        w.s_check_operands = false;
        w.huge_one_in = 60;
        w.start();
        auto state = [&] { std::vector<size_t> v{w.mgr->nr_nodes(), w.mgr->nr_variables()}; for(Item& i : w.pool) if(!i.h.is_terminal()) v.push_back(i.h.reference_count()); return v; };
        auto out = [&](Item a) {
            size_t sz = w.rb.size(a.f);
            if(sz > 1000 && printed > 200000) return;
            if(sz > 1000) printed += sz;
            size_t n = w.mgr->nr_nodes();
            VP_LOG("print %s", w.rb.text(a.f).c_str());
            check_print(w, a.h, a.f);
            VP_CHECK(w.mgr->nr_nodes() == n, "printing changed the node count");
            VP_CHECK(a.h.nr_nodes() == w.rb.size(a.f) && a.h.variables() == w.rb.support(a.f), "queries after printing are wrong");
            ++outputs;
            if(w.rb.size(a.f) >= 6) ++large;
        };
        for(size_t i = 0; i < steps; ++i) switch(s.pick({8, 3, 2, 2, 1, 1, 1})) {
            case 0: { auto st = state(); Item a = s.chance(1, 12) ? w.constant(s.coin()) : w.any_operand(); out(a); if(s.coin()) out(w.sub(a)); if(s.coin()) out(a); a = Item{}; VP_CHECK(state() == st, "printing changed node, variable or reference counts"); break; }
            case 1: w.op_binary(); break;
            case 2: w.op_dense(8); break;
            case 3: w.op_ite(); break;
            case 4: w.op_gc(); break;
            case 5: w.op_drop(); break;
            default: w.op_negate();
        }
        for(size_t j = 0; j < w.pool.size() && j < 15; ++j) out(w.pool[j]);
        for(bool b : {false, true}) out(w.constant(b));
        w.check_pool("at the end");
        label("manager diagrams");
    } else {
        ColWorld w(s, vars);
        w.max_nodes = 400;
        w.max_entries = 25;
        w.begin(120, 60);
        auto out = [&](size_t e) {
            size_t sz = w.rb.size(w.model[e]);
            if(sz > 1000 && printed > 200000) return;
            if(sz > 1000) printed += sz;
            VP_LOG("export entry %zu %s", e, w.rb.text(w.model[e]).c_str());
            auto snap = w.snapshot();
            check_graphviz(w, e, w.model[e]);
            w.unchanged(snap, "export"); w.count("export");
            ++outputs;
            if(w.rb.size(w.model[e]) >= 6) ++large;
        };
        for(size_t i = 0; i < steps && !w.tired(); ++i) {
            if(w.model.empty()) w.op_add();
            switch(s.pick({7, 4, 2, 2, 1, 1, 1})) {
                case 0: out(w.some()); break;
                case 1: if(w.room()) w.op_add(w.fn(2)); break;
                case 2: if(w.room()) w.op_and2(false); break;
                case 3: if(w.room()) w.op_or_var(true); break;
                case 4: w.op_rebase(); break;
                case 5: w.op_remove(s.draw(5)); break;
                default: if(w.room()) w.op_and_range(false, s.range(2, 5));
            }
        }
        for(size_t e = 0; e < w.model.size(); ++e) out(e);
        w.check_all("at the end");
        label("stored diagrams");
    }
    if(outputs >= 3 && large > 0) nontrivial();
}

const Property vp::property = {"C18", "manager diagrams printed and stored entries exported as Graphviz between operations, parsed and rebuilt; non-trivial: at least three outputs, one of them of six or more nodes", run, 6000, 1500, 150000, 30000, 30};
