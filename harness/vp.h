// Small property-based testing engine: choice sequences, labels, failure reporting.
// A case is a pure function of a sequence of bounded integers ("choices"). The driver draws them from a
// seeded generator, records them in shared memory, and can replay, shrink and mutate the sequence.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <initializer_list>

namespace vp {

constexpr size_t MAXREC = 1u << 18;
constexpr size_t MAXLOG = 1u << 16;
constexpr int MAXLABELS = 160;

struct Slot { // shared between a worker and the case it forked
    uint32_t nrec;
    uint32_t overflow;
    uint32_t failed;      // set by fail()
    uint32_t discarded;
    uint32_t nontrivial;
    uint32_t loglen;
    uint64_t sig;         // running hash of what makes the case distinct
    uint64_t work;        // number of oracle comparisons made
    char msg[4096];
    char log[MAXLOG];
    uint64_t rec[MAXREC];
};

struct Labels { // shared, aggregated over all cases of a worker
    char name[MAXLABELS][56];
    uint64_t cases[MAXLABELS];
    uint32_t n;
};

extern Slot* slot;
extern Labels* labels;
extern bool logging;
extern int tier; // 0 quick, 1 thorough

inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

struct Rng { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); } };

class Src {
public:
    // generate mode (replay == nullptr) or replay mode
    Src(uint64_t seed, const std::vector<uint64_t>* replay) : rng{seed}, rep(replay) {}
    // integer in [0, n]
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if(rep != nullptr) {
            v = pos < rep->size() ? (*rep)[pos] : 0;
            if(v > n) v = n;
        } else
            v = n == UINT64_MAX ? rng.next() : rng.next() % (n + 1);
        ++pos;
        if(slot->nrec < MAXREC) slot->rec[slot->nrec++] = v;
        else slot->overflow = 1;
        slot->sig = mix(slot->sig ^ v) + pos;
        return v;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    bool coin() { return draw(1) == 1; }
    // true with probability num/den; false is the simple outcome
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    // index weighted by w; earlier indices are simpler
    size_t pick(std::initializer_list<unsigned> w)
    {
        uint64_t sum = 0;
        for(unsigned x : w) sum += x;
        uint64_t v = draw(sum - 1);
        size_t i = 0;
        for(unsigned x : w) { if(v < x) return i; v -= x; ++i; }
        return i - 1;
    }
    size_t position() const { return pos; }
private:
    Rng rng;
    const std::vector<uint64_t>* rep;
    size_t pos = 0;
};

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard();
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const char* name);           // counted at most once per case and name
inline void nontrivial() { slot->nontrivial = 1; }
inline void compared(uint64_t n = 1) { __atomic_fetch_add(&slot->work, n, __ATOMIC_RELAXED); }

#define VP_CHECK(cond, ...) do { ::vp::compared(); if(!(cond)) ::vp::fail(__VA_ARGS__); } while(0)
#define VP_LOG(...) do { if(::vp::logging) ::vp::logf(__VA_ARGS__); } while(0)

struct Property {
    const char* id;
    const char* rule;
    void (*run)(Src&);
    // number of cases: quick/thorough, plain build / AddressSanitizer build
    unsigned long quick_plain, quick_asan, thorough_plain, thorough_asan;
    double cpu_limit; // seconds of CPU per case before it counts as not terminating
};

extern const Property property; // defined by each property file

// control over the randomness of the code under test (see driver.cpp)
void set_device_seed(unsigned v);

}
