// C21: managers and collections that are used in different threads do not disturb each other. Several programs, each
// with a manager and a collection of its own, run in one thread each; they may be handed to another thread between phases
// (with a synchronisation in between). Oracles: every answer of every program is the one it gives alone, every
// function is the reference package's; in the ThreadSanitizer build, no two threads touch the same memory without
// synchronisation (whatever the schedule that happened).
#include "program.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
using namespace vp;

static void run(Src& s)
{
    static const size_t maxvars[] = {5, 8};
    unsigned k = 2 + s.pick({4, 2, 1});
    struct Job { RB rb; std::vector<size_t> vars; std::vector<Op> prog; Env env; std::unique_ptr<Exec> alone, par; size_t at = 0; };
    std::vector<std::unique_ptr<Job>> jobs;
    bool same = s.chance(1, 3); // all threads run the same program
    for(unsigned i = 0; i < k; ++i) {
        jobs.emplace_back(new Job);
        Job& j = *jobs.back();
        if(i > 0 && same) { j.vars = jobs[0]->vars; j.prog = jobs[0]->prog; }
        else { j.vars = draw_variables(s, maxvars[s.pick({4, 4})]); VP_LOG("program %u", i); j.prog = draw_program(s, j.vars, 4, 30); }
        j.env = draw_env(s);
        if(tier == 0 && j.env.noise > 1) j.env.noise = 1;
    }
    for(auto& j : jobs) { // alone, one after the other
        j->alone.reset(new Exec(j->rb, j->vars, Env{HASH_NATURAL, 1, 0, 0, false}));
        for(size_t i = 0; i < j->prog.size(); ++i) j->alone->step(j->prog[i], i);
        j->alone->finish();
        if(s.coin()) j->alone->teardown();
    }
    lbdd_verif_hash_key = &hash_key_hook;
    hash_hook_stays = true;
    // phases: a program moves to another thread from phase to phase; the first phase may create everything in the main thread
    unsigned phases = 1 + s.pick({3, 2, 1});
    bool early = s.chance(1, 4);
    if(early) for(auto& j : jobs) j->par.reset(new Exec(j->rb, j->vars, j->env));
    bool late_teardown = s.chance(1, 4);
    VP_LOG("%u threads, %u phases%s%s", k, phases, early ? ", created by the main thread" : "", late_teardown ? ", destroyed by the main thread" : "");
    for(unsigned p = 0; p < phases; ++p) {
        std::vector<std::thread> ts;
        std::atomic<unsigned> waiting{k};
        for(unsigned i = 0; i < k; ++i) ts.emplace_back([&, i, p]() {
            Job& j = *jobs[(i + p) % k];
            waiting.fetch_sub(1, std::memory_order_relaxed);
            while(waiting.load(std::memory_order_relaxed) != 0) std::this_thread::yield();
            if(!j.par) j.par.reset(new Exec(j.rb, j.vars, j.env));
            size_t to = j.prog.size() * (p + 1) / phases;
            for(; j.at < to; ++j.at) j.par->step(j.prog[j.at], j.at);
            if(p + 1 == phases) { j.par->finish(); if(!late_teardown) j.par->teardown(); }
        });
        for(auto& t : ts) t.join();
    }
    for(auto& j : jobs) { if(late_teardown) j->par->teardown(); compare(*j->alone, *j->par, "program in a thread of its own"); j->alone->teardown(); }
    hash_hook_stays = false;
    size_t ops = 0;
    for(auto& j : jobs) ops += j->prog.size();
    if(phases > 1) label("programs move between threads");
    if(same) label("the same program in every thread");
    if(k > 2) label("three or more threads");
    if(ops >= 20) nontrivial();
}

const Property vp::property = {"C21", "two to four programs of manager and collection operations, each on a manager and a collection of its own, run in threads at the same time and moved between threads at joins, compared with running alone, with data races detected by ThreadSanitizer; non-trivial: at least twenty operations in all", run, 1500, 700, 40000, 20000, 30};
