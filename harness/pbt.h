// Small property-based testing engine (choice-sequence generation and
// shrinking, forked execution, deterministic from one seed).
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Discard {
};
struct Failure {
    std::string msg;
};

struct Rng { // splitmix64
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
};

uint64_t hash_str(std::string const&, uint64_t h = 1469598103934665603ULL);
std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));

class Ctx {
public:
    // ---- choices -------------------------------------------------------
    bool replaying = false;
    std::vector<uint64_t> const* in = nullptr;
    Rng rng { 0 };
    uint64_t* rec = nullptr;
    volatile uint64_t* nrec = nullptr;
    size_t cap = 0;
    size_t pos = 0;

    uint64_t draw(uint64_t n); // uniform in [0, n]

    // ---- generators ----------------------------------------------------
    long i(long lo, long hi) { return lo + long(draw(uint64_t(hi - lo))); }
    bool flag(int num = 1, int den = 2) { return long(draw(den - 1)) >= den - num; }
    double unit(); // [0,1) uniform 53 bit
    // interval with a bias towards simple fractions, the ends and their
    // neighbourhood
    double u(double lo, double hi);
    double plain(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double logu(double lo, double hi);
    // random number strictly inside (0,1), biased towards the ends
    double prob();
    template <typename T> T const& pick(std::vector<T> const& v)
    {
        return v.at(draw(v.size() - 1));
    }
    template <typename T> T pick(std::initializer_list<T> v)
    {
        return *(v.begin() + draw(v.size() - 1));
    }

    // ---- bookkeeping ----------------------------------------------------
    bool interesting = false;
    std::string notes;
    uint64_t key = 1469598103934665603ULL;
    std::vector<std::string> labels;
    void note(const char* f, ...) __attribute__((format(printf, 2, 3)));
    void nontrivial() { interesting = true; }
    void label(std::string const& s) { labels.push_back(s); }
    [[noreturn]] void discard() { throw Discard(); }
    void require(bool b)
    {
        if (!b)
            throw Discard();
    }

    // ---- checks ---------------------------------------------------------
    [[noreturn]] void fail(const char* f, ...)
        __attribute__((format(printf, 2, 3)));
    void check(bool ok, const char* f, ...)
        __attribute__((format(printf, 3, 4)));
    void close(double a, double b, double rtol, double atol, const char* f, ...)
        __attribute__((format(printf, 6, 7)));
    // listed, unrepaired defect: reported as KNOWN-FINDING and the case ends.
    // If the id is not listed, it is a failure.
    void finding(std::string const& id, std::string const& what);
};

struct KnownFinding {
    std::string id, what;
};

using LawFn = std::function<void(Ctx&)>;
struct Law {
    std::string name;
    LawFn fn;
    size_t quick;   // number of cases, quick tier
    size_t chunk;   // cases per forked process
    double factor;  // thorough = quick * factor
    std::string rule;
};
std::vector<Law>& laws();
struct Reg {
    Reg(const char* name, LawFn f, size_t quick, size_t chunk,
        const char* rule, double factor = 12)
    {
        laws().push_back({ name, f, quick, chunk, factor, rule });
    }
};
// LAW(name, quick cases, cases per process, "rule of non-triviality")
#define LAW(name, quick, chunk, rule)                                          \
    static void law_##name(pbt::Ctx& c);                                       \
    static pbt::Reg reg_##name(#name, law_##name, quick, chunk, rule);         \
    static void law_##name(pbt::Ctx& c)

extern const char* property_id; // defined by every harness
void global_setup();            // defined in common.cxx, run before every chunk
} // namespace pbt

#define THROWS(c, expr, what)                                                  \
    do {                                                                       \
        bool thrown_ = false;                                                  \
        try {                                                                  \
            (void)(expr);                                                      \
        } catch (std::exception const&) {                                      \
            thrown_ = true;                                                    \
        }                                                                      \
        (c).check(thrown_, "no exception: %s", what);                          \
    } while (0)
