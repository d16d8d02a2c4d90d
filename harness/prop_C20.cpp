// C20: one program of operations run under several conditions: hash keys, prior memory contents, other managers and
// collections alive, used, created and destroyed in between, earlier entries in the collection. Oracle: every run gives
// the functions of the reference package, and all runs give the same counts and answers.
#include "program.h"
using namespace vp;

static void run(Src& s)
{
    RB rb;
    static const size_t maxvars[] = {5, 8, 16};
    std::vector<size_t> vars = draw_variables(s, maxvars[s.pick({4, 4, 1})]);
    std::vector<Op> prog = draw_program(s, vars, 4, 45);
    // the plain run
    Exec ref(rb, vars, Env{HASH_NATURAL, 1, 0, 0, false});
    for(size_t i = 0; i < prog.size(); ++i) ref.step(prog[i], i);
    ref.finish();
    bool gone = s.coin();
    if(gone) ref.teardown(); // else it stays alive during the other runs
    unsigned runs = 1 + s.draw(2);
    for(unsigned r = 0; r < runs; ++r) {
        dirty_heap(s);
        if(s.chance(1, 3)) { // two runs in alternation
            Exec a(rb, vars, draw_env(s)), b(rb, vars, draw_env(s));
            VP_LOG("two runs in alternation");
            for(size_t i = 0; i < prog.size(); ++i) { if(s.chance(1, 4)) { b.step(prog[i], i); a.step(prog[i], i); } else { a.step(prog[i], i); b.step(prog[i], i); } }
            a.finish();
            compare(ref, a, "first of two alternating runs");
            if(s.coin()) a.teardown();
            b.finish();
            compare(ref, b, "second of two alternating runs");
            b.teardown();
            a.teardown();
            label("two runs in alternation");
        } else {
            Exec a(rb, vars, draw_env(s));
            for(size_t i = 0; i < prog.size(); ++i) a.step(prog[i], i);
            a.finish();
            compare(ref, a, "run");
            a.teardown();
        }
    }
    if(!gone) ref.teardown();
    if(prog.size() >= 12 && ref.log.size() > 60) nontrivial();
}

const Property vp::property = {"C20", "programs of manager and collection operations run two to seven times under different hash keys, heap contents, other managers and collections, earlier entries and orders of destruction; non-trivial: at least twelve operations and sixty logged answers", run, 4000, 1000, 100000, 25000, 20};
