// Driver: runs generated cases in forked children, shrinks failures, writes counts.
#include "vp.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <cerrno>
#include <random>
#include <stdexcept>
#include <exception>
#include <unordered_set>
#include <set>
#include <map>
#include <fstream>
#include <sstream>
#include <atomic>
#include <algorithm>

// The library seeds its generator from std::random_device; these definitions take precedence over the ones in
// libstdc++.so, so that every run is a function of the choices.
static unsigned g_device_seed = 12345;
namespace std {
    void random_device::_M_init(const std::string&) {}
    void random_device::_M_init_pretr1(const std::string&) {}
    void random_device::_M_fini() {}
    random_device::result_type random_device::_M_getval() { return __atomic_add_fetch(&g_device_seed, 1013904223u, __ATOMIC_RELAXED) * 1664525u; }
    random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
}

std::size_t (*lbdd_verif_hash_key)(std::size_t) = nullptr; // used by the hook in /repo

namespace vp {
Slot* slot = nullptr;
Labels* labels = nullptr;
bool logging = false;
int tier = 0;
static std::set<std::string>* case_labels = nullptr;

void set_device_seed(unsigned v) { g_device_seed = v; }

static void append_log(const char* fmt, va_list ap)
{
    if(slot->loglen + 256 >= MAXLOG) return;
    int n = vsnprintf(slot->log + slot->loglen, MAXLOG - slot->loglen - 1, fmt, ap);
    if(n < 0) return;
    slot->loglen = std::min<size_t>(slot->loglen + n, MAXLOG - 2);
    slot->log[slot->loglen++] = '\n';
    slot->log[slot->loglen] = 0;
}
void logf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); append_log(fmt, ap); va_end(ap); }

void fail(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
    va_end(ap);
    slot->failed = 1;
    _exit(10);
}
void harness_error(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
    va_end(ap);
    _exit(12);
}
void discard() { slot->discarded = 1; _exit(11); }

void label(const char* name)
{
    if(case_labels == nullptr) case_labels = new std::set<std::string>;
    if(!case_labels->insert(name).second) return;
    for(uint32_t i = 0; i < labels->n; ++i)
        if(strncmp(labels->name[i], name, 55) == 0) { labels->cases[i]++; return; }
    if(labels->n < MAXLABELS) {
        strncpy(labels->name[labels->n], name, 55);
        labels->cases[labels->n++] = 1;
    }
}
}

using namespace vp;

enum Kind { OK, FAIL, CRASH, HANG, MEMORY, DISCARD, HARNESS };
static const char* kind_name[] = {"ok", "property failed", "crash", "did not terminate within the CPU budget", "memory use exploded", "discarded", "harness error"};

struct Outcome { Kind kind; std::string msg; };

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static int g_errfd = -1;
static double g_cpu_limit = 20;
static double g_cpu_used = 0; // by the last case

static size_t rss_bytes(pid_t pid)
{
    char path[64]; snprintf(path, sizeof path, "/proc/%d/statm", pid);
    FILE* f = fopen(path, "r");
    if(!f) return 0;
    unsigned long a = 0, b = 0;
    if(fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
    fclose(f);
    return b * 4096ul;
}

static Outcome run_case(uint64_t seed, const std::vector<uint64_t>* replay, bool log, double cpu_scale = 1)
{
    slot->nrec = 0; slot->overflow = 0; slot->failed = 0; slot->discarded = 0; slot->nontrivial = 0; slot->loglen = 0;
    slot->sig = 0; slot->work = 0; slot->msg[0] = 0; slot->log[0] = 0;
    if(g_errfd >= 0) { if(ftruncate(g_errfd, 0)) {} lseek(g_errfd, 0, SEEK_SET); }
    logging = log;
    pid_t pid = fork();
    if(pid < 0) return {HARNESS, "fork failed"};
    if(pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr);
        signal(SIGPROF, SIG_DFL);
        if(g_errfd >= 0) dup2(g_errfd, 2);
        itimerval tv{};
        double lim = property.cpu_limit * g_cpu_limit / 20 * cpu_scale;
        tv.it_value.tv_sec = (long)lim; tv.it_value.tv_usec = (long)((lim - (long)lim) * 1e6) + 1;
        setitimer(ITIMER_PROF, &tv, nullptr);
        Src s(seed, replay);
        try { property.run(s); }
        catch(const std::exception& e) { fail("unexpected exception: %s", e.what()); }
        catch(...) { fail("unexpected exception"); }
        _exit(0);
    }
    int st = 0;
    bool memkill = false;
    sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD);
    for(;;) {
        rusage ru;
        pid_t r = wait4(pid, &st, WNOHANG, &ru);
        if(r == pid) { g_cpu_used = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) * 1e-6; break; }
        timespec ts{0, 100000000};
        int sg = sigtimedwait(&chld, nullptr, &ts);
        if(sg < 0 && !memkill && rss_bytes(pid) > (3ul << 30)) { memkill = true; kill(pid, SIGKILL); }
    }
    auto tail = [&]() -> std::string {
        std::string out;
        if(g_errfd >= 0) {
            off_t n = lseek(g_errfd, 0, SEEK_END);
            off_t k = std::min<off_t>(n, 1500);
            out.resize(k);
            if(k > 0 && pread(g_errfd, &out[0], k, 0) < 0) out.clear();
        }
        return out;
    };
    if(memkill) return {MEMORY, "resident memory above 3 GB"};
    if(WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if(c == 0) return {OK, ""};
        if(c == 10) return {FAIL, slot->msg};
        if(c == 11) return {DISCARD, ""};
        if(c == 12) return {HARNESS, slot->msg};
        return {CRASH, "exit status " + std::to_string(c) + ": " + tail()};
    }
    if(WIFSIGNALED(st)) {
        if(WTERMSIG(st) == SIGPROF) return {HANG, "CPU budget of " + std::to_string(property.cpu_limit) + " s exceeded"};
        return {CRASH, std::string("signal ") + std::to_string(WTERMSIG(st)) + ": " + tail()};
    }
    return {HARNESS, "unknown wait status"};
}

static bool is_bad(Kind k) { return k == FAIL || k == CRASH || k == HANG || k == MEMORY; }

static std::vector<uint64_t> recorded() { return std::vector<uint64_t>(slot->rec, slot->rec + slot->nrec); }

// Shrink a failing choice sequence.
static std::vector<uint64_t> shrink(std::vector<uint64_t> best, Kind kind, double budget_s, unsigned& tries)
{
    const double end = now() + budget_s;
    auto fails = [&](const std::vector<uint64_t>& c) {
        ++tries;
        Outcome o = run_case(0, &c, false, kind == HANG ? 0.5 : 1);
        if(kind == HANG) return o.kind == HANG;
        return o.kind == FAIL || o.kind == CRASH || o.kind == MEMORY;
    };
    auto trim = [&](std::vector<uint64_t>& v) { while(!v.empty() && v.back() == 0) v.pop_back(); };
    trim(best);
    bool changed = true;
    while(changed && now() < end) {
        changed = false;
        for(size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
            for(size_t i = best.size(); i > 0 && now() < end;) {
                size_t lo = i >= chunk ? i - chunk : 0;
                if(i > best.size()) { i = best.size(); continue; }
                std::vector<uint64_t> c(best.begin(), best.begin() + lo);
                c.insert(c.end(), best.begin() + i, best.end());
                trim(c);
                if(c.size() < best.size() && fails(c)) { best = c; changed = true; i = std::min(lo, best.size()); continue; }
                // zero the chunk instead
                c = best;
                bool nz = false;
                for(size_t j = lo; j < i && j < c.size(); ++j) { nz |= c[j] != 0; c[j] = 0; }
                trim(c);
                if(nz && fails(c)) { best = c; changed = true; }
                i = std::min(lo, best.size());
            }
        }
        for(size_t i = 0; i < best.size() && now() < end; ++i) {
            uint64_t lo = 0; // find a small failing value by bisection (not monotone in general; a heuristic)
            while(i < best.size() && lo < best[i] && now() < end) {
                uint64_t mid = lo + (best[i] - lo) / 2;
                std::vector<uint64_t> c = best;
                c[i] = mid;
                trim(c);
                if(fails(c)) { best = c; changed = true; } else lo = mid + 1;
            }
        }
    }
    return best;
}

static std::string json_escape(const std::string& s)
{
    std::string o;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += c; }
        else if(c == '\n') o += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct WorkerShared { // results of one worker
    std::atomic<uint64_t> evaluations, discarded, nontrivial, distinct, work, unreproduced, overflow;
    std::atomic<uint32_t> bad;       // a confirmed failure is in the replay file
    std::atomic<uint32_t> harness;   // harness error
    std::atomic<uint32_t> timeup;
    uint64_t bad_index;
    double slowest;                  // CPU seconds of the most expensive case
    uint64_t slowest_index;
    char msg[8192];
    char samples[4][6000];
    uint32_t nsamples;
};

struct Args { uint64_t seed = 1, cases = 100, only = UINT64_MAX, first = 0; int workers = 8; double budget = 300; std::string replay, out, replay_out, variant = "plain"; bool verbose = false; };

static void write_replay(const std::string& path, const Args& a, const std::vector<uint64_t>& c, const Outcome& o, const std::string& log)
{
    std::ofstream f(path);
    f << "# replay of a failing case; run with: ./check " << property.id << " --replay <this file>\n";
    f << "property " << property.id << "\nvariant " << a.variant << "\nseed " << a.seed << "\nchoices";
    for(uint64_t v : c) f << ' ' << v;
    f << "\n# " << kind_name[o.kind] << "\n";
    std::istringstream m(o.msg + "\n--- history ---\n" + log);
    for(std::string l; std::getline(m, l);) f << "# " << l << "\n";
}

static void worker(const Args& a, int w, WorkerShared* all, std::atomic<uint32_t>* stop)
{
    WorkerShared& me = all[w];
    char tmpl[] = "/tmp/vp_err_XXXXXX";
    g_errfd = mkstemp(tmpl);
    if(g_errfd >= 0) { unlink(tmpl); fcntl(g_errfd, F_SETFD, FD_CLOEXEC); }
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); sigprocmask(SIG_BLOCK, &chld, nullptr);
    std::unordered_set<uint64_t> seen;
    const double end = now() + a.budget;
    for(uint64_t i = a.first + w; i < a.first + a.cases; i += a.workers) {
        if(stop->load()) return;
        if(now() > end) { me.timeup = 1; return; }
        const uint64_t seed = mix(mix(a.seed * 1000003 + 17) ^ mix(i * 7919 + 1) ^ mix(std::hash<std::string>()(property.id)));
        const bool sample = me.nsamples < 2 && (i / a.workers) % 7 == 3;
        Outcome o = run_case(seed, nullptr, sample);
        me.evaluations++;
        if(g_cpu_used > me.slowest) { me.slowest = g_cpu_used; me.slowest_index = i; }
        me.work += slot->work;
        if(slot->overflow) me.overflow++;
        if(o.kind == DISCARD) { me.discarded++; continue; }
        if(o.kind == HARNESS) { snprintf(me.msg, sizeof me.msg, "case %lu: %s", (unsigned long)i, o.msg.c_str()); me.harness = 1; stop->store(1); return; }
        if(o.kind == OK) {
            if(slot->nontrivial) { me.nontrivial++; if(seen.insert(slot->sig).second) me.distinct++; }
            if(sample && slot->nontrivial) {
                std::string l(slot->log, std::min<size_t>(slot->loglen, 1400));
                snprintf(me.samples[me.nsamples++], sizeof me.samples[0], "%s", l.c_str());
            }
            continue;
        }
        if(!is_bad(o.kind)) continue;
        // confirm from the recorded choices
        std::vector<uint64_t> c = recorded();
        const bool over = slot->overflow;
        int rep = 0, tries5 = 0;
        // an oracle failure or a crash counts when it happens again at all (memory layout may differ between runs);
        // running out of time or memory has to happen every time
        const bool resource = o.kind == HANG || o.kind == MEMORY;
        for(; tries5 < (resource ? 2 : 6); ++tries5) {
            Outcome r = over ? run_case(seed, nullptr, false) : run_case(0, &c, false);
            if(is_bad(r.kind)) ++rep;
            if(resource ? rep <= tries5 : rep >= 2) break;
        }
        if(resource ? rep < 2 : rep < 1) { me.unreproduced++; snprintf(me.msg, sizeof me.msg, "case %lu failed once but not again: %s", (unsigned long)i, o.msg.c_str()); continue; }
        // first to confirm shrinks and reports
        uint32_t expect = 0;
        if(!stop->compare_exchange_strong(expect, 1)) return;
        unsigned tries = 0;
        std::vector<uint64_t> best = over ? c : shrink(c, o.kind, o.kind == HANG ? 40 : 60, tries);
        Outcome fin = run_case(0, &best, true);
        if(!is_bad(fin.kind)) { best = c; fin = run_case(0, &best, true); }
        if(!is_bad(fin.kind)) fin = o;
        write_replay(a.replay_out, a, best, fin, std::string(slot->log, slot->loglen));
        me.bad_index = i;
        snprintf(me.msg, sizeof me.msg, "case %lu, %s, %zu choices after %u shrink attempts (from %zu): %s", (unsigned long)i, kind_name[fin.kind], best.size(), tries, c.size(), fin.msg.c_str());
        me.bad = 1;
        return;
    }
}

int main(int argc, char** argv)
{
    // fixed address layout where the sandbox allows it: pointer order is then reproducible
    if(!getenv("VP_REEXEC")) {
        setenv("VP_REEXEC", "1", 1);
        int p = personality(0xffffffff);
        if(p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    }
    Args a;
    for(int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if(k == "--seed") a.seed = std::stoull(val());
        else if(k == "--cases") a.cases = std::stoull(val());
        else if(k == "--first") a.first = std::stoull(val());
        else if(k == "--workers") a.workers = std::stoi(val());
        else if(k == "--budget") a.budget = std::stod(val());
        else if(k == "--tier") tier = val() == "thorough";
        else if(k == "--variant") a.variant = val();
        else if(k == "--replay") a.replay = val();
        else if(k == "--out") a.out = val();
        else if(k == "--replay-out") a.replay_out = val();
        else if(k == "--cpu-scale") g_cpu_limit = 20 * std::stod(val());
        else if(k == "--info") { // case counts, read by the check script
            printf("%lu %lu %lu %lu\n", property.quick_plain, property.quick_asan, property.thorough_plain, property.thorough_asan);
            return 0;
        }
        else { fprintf(stderr, "unknown argument %s\n", k.c_str()); return 2; }
    }
    slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    labels = (Labels*)mmap(nullptr, sizeof(Labels), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if(!a.replay.empty()) {
        std::ifstream f(a.replay);
        std::vector<uint64_t> c;
        bool found = false;
        for(std::string l; std::getline(f, l);)
            if(l.rfind("choices", 0) == 0) { std::istringstream is(l.substr(7)); for(uint64_t v; is >> v;) c.push_back(v); found = true; }
        if(!found) { fprintf(stderr, "no choices in %s\n", a.replay.c_str()); return 2; }
        sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); sigprocmask(SIG_BLOCK, &chld, nullptr);
        char tmpl[] = "/tmp/vp_err_XXXXXX";
        g_errfd = mkstemp(tmpl);
        if(g_errfd >= 0) unlink(tmpl);
        Outcome o = run_case(0, &c, true);
        printf("%s\n%s\n--- history ---\n%s", kind_name[o.kind], o.msg.c_str(), slot->log);
        return is_bad(o.kind) ? 1 : o.kind == HARNESS ? 2 : 0;
    }

    size_t sz = sizeof(WorkerShared) * a.workers;
    WorkerShared* ws = (WorkerShared*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto* stop = (std::atomic<uint32_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Labels*> lab(a.workers);
    std::vector<pid_t> pids;
    const double t0 = now();
    for(int w = 0; w < a.workers; ++w) {
        lab[w] = (Labels*)mmap(nullptr, sizeof(Labels), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid_t p = fork();
        if(p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            labels = lab[w];
            slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            worker(a, w, ws, stop);
            _exit(0);
        }
        pids.push_back(p);
    }
    bool died = false;
    for(pid_t p : pids) { int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) died = true; }

    uint64_t ev = 0, dis = 0, nt = 0, dist = 0, work = 0, unrep = 0, over = 0, timeup = 0;
    int bad = -1, harness = -1;
    double slowest = 0; uint64_t slowest_index = 0;
    std::map<std::string, uint64_t> L;
    std::vector<std::string> samples;
    for(int w = 0; w < a.workers; ++w) {
        ev += ws[w].evaluations; dis += ws[w].discarded; nt += ws[w].nontrivial; dist += ws[w].distinct; work += ws[w].work; unrep += ws[w].unreproduced; over += ws[w].overflow; timeup += ws[w].timeup;
        if(ws[w].bad) bad = w;
        if(ws[w].slowest > slowest) { slowest = ws[w].slowest; slowest_index = ws[w].slowest_index; }
        if(ws[w].harness) harness = w;
        for(uint32_t i = 0; i < lab[w]->n; ++i) L[lab[w]->name[i]] += lab[w]->cases[i];
        for(uint32_t i = 0; i < ws[w].nsamples; ++i) if(samples.size() < 4) samples.push_back(ws[w].samples[i]);
        if(ws[w].unreproduced) fprintf(stderr, "note: %s\n", ws[w].msg);
    }
    if(!a.out.empty()) {
        std::ofstream f(a.out);
        f << "{\"variant\":\"" << a.variant << "\",\"evaluations\":" << ev << ",\"discarded\":" << dis << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << dist
          << ",\"comparisons\":" << work << ",\"unreproduced\":" << unrep << ",\"truncated_recordings\":" << over << ",\"workers_out_of_time\":" << timeup
          << ",\"slowest_case_cpu_s\":" << slowest << ",\"slowest_case\":" << slowest_index << ",\"cpu_limit_s\":" << property.cpu_limit * g_cpu_limit / 20 << ",\"wall_s\":" << now() - t0 << ",\"rule\":\"" << json_escape(property.rule) << "\",\"labels\":{";
        bool first = true;
        for(auto& [k, v] : L) { f << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v; first = false; }
        f << "},\"samples\":[";
        for(size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << "\"" << json_escape(samples[i]) << "\"";
        f << "],\"violation\":" << (bad >= 0 ? "true" : "false") << ",\"message\":\"" << (bad >= 0 ? json_escape(ws[bad].msg) : "") << "\"}\n";
    }
    if(bad >= 0) { printf("%s\n", ws[bad].msg); return 1; }
    if(harness >= 0) { fprintf(stderr, "harness error: %s\n", ws[harness].msg); return 2; }
    if(died) { fprintf(stderr, "a worker died\n"); return 2; }
    return 0;
}
