// Choice-sequence property-testing engine.
//
// A case is the list of choices its generator drew.  Random cases draw the
// choices from a PRNG keyed by VERIF_SEED; replays and shrinking feed an
// explicit list (values are reduced modulo the bound, 0 once exhausted, so 0
// is always the simplest choice).  Every case runs in a forked child.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {  // splitmix64
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

struct Gen {
    uint64_t below(uint64_t n);                 // [0,n)
    int64_t range(int64_t lo, int64_t hi) {     // [lo,hi], simplest = lo
        return hi <= lo ? lo : lo + (int64_t)below((uint64_t)(hi - lo) + 1);
    }
    bool chance(unsigned num, unsigned den) {   // true with num/den, simplest = false
        return below(den) >= den - num && num;
    }
    bool coin() { return below(2); }
    uint64_t any64();
    size_t weighted(std::initializer_list<int> w);
    template <class C> auto &pick(C &c) { return c[below(c.size())]; }
    template <class T> T one(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    std::string rbytes(size_t n);               // n bytes, each a choice
    std::string blob(size_t n);                 // n bytes derived from one choice
    size_t size(size_t max);                    // skewed to small, sometimes near max
};
extern Gen G;

// --- provided by each property ------------------------------------------------
extern const char *prop_rule;           // evidence rule text
extern long prop_cases_quick, prop_cases_thorough;
extern int prop_batch;                  // cases per set-up
extern bool prop_guided;                // coverage-guided choice mutation
void prop_setup();                      // must reach engine_ready() (default: directly)
void prop_case();                       // one case, in the child

// --- services -----------------------------------------------------------------
void engine_ready();                    // returns in the case child only
[[noreturn]] void engine_done();        // case ends: held
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const std::string &name, long n = 1);
void nontrivial();                      // the case exercised the property
void sample(const std::string &s);
bool want_sample();
bool verbose();                         // replay -v
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace in verbose mode
void steps_reset(uint64_t limit);       // hang watchdog over instrumented code
const char *scratch_dir();              // per-shard scratch directory
std::string hex(const std::string &s, size_t max = 200);
std::string quoted(const std::string &s, size_t max = 200);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
#define CHECK(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)
