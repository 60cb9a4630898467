// Minimal property-based-testing core: every generated case is a sequence of bounded integer
// choices.  A case can be re-executed from its recorded choices (replay), which is what the runner
// uses both for shrinking (delete / lower choices) and for the replay files it writes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail {            // the property is violated
    std::string msg;
};
struct Discard {};       // case not usable (counted, never a verdict)

[[noreturn]] inline void fail(const std::string &m) { throw Fail{m}; }

// splitmix64 / xorshift generator
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

struct Crumb;            // crash breadcrumb (mmap'ed), see pbt.cpp
void crumbPush(uint64_t v);
void crumbReset(uint64_t caseNo);

class Src {
public:
    Src(uint64_t seed, uint64_t caseNo) : rng_(seed * 1000003ull + caseNo), replay_(false) {}
    explicit Src(const std::vector<uint64_t> &c) : rng_(0), choices_(c), replay_(true) {}

    // uniform in [0, n); n >= 1.  0 is the simplest value.
    uint64_t draw(uint64_t n) {
        if (n <= 1) n = 1;
        uint64_t v;
        if (replay_) {
            v = pos_ < choices_.size() ? choices_[pos_] : 0;
            if (v >= n) v = n - 1;
        } else {
            v = n == 1 ? 0 : rng_.next() % n;
        }
        ++pos_;
        rec_.push_back(v);
        crumbPush(v);
        return v;
    }
    uint64_t draw64() {           // full 64 bit
        uint64_t hi = draw(1ull << 32), lo = draw(1ull << 32);
        return (hi << 32) | lo;
    }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // 0 => false
    int range(int lo, int hi) { return lo + int(draw(uint64_t(hi - lo) + 1)); }
    template<class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    // weighted index
    size_t weighted(const std::vector<unsigned> &w) {
        uint64_t tot = 0;
        for (auto x : w) tot += x;
        uint64_t r = draw(tot);
        for (size_t i = 0; i < w.size(); ++i) {
            if (r < w[i]) return i;
            r -= w[i];
        }
        return 0;
    }
    const std::vector<uint64_t> &recorded() const { return rec_; }
    bool replaying() const { return replay_; }

private:
    Rng rng_;
    std::vector<uint64_t> choices_, rec_;
    size_t pos_ = 0;
    bool replay_;
};

struct Ctx {
    Src &src;
    bool nontrivial = false;       // set by the property according to its stated rule
    uint64_t hash = 0;             // identity of the case for the distinctness count
    std::string describe;          // human-readable sample
    uint64_t evals = 0;            // number of oracle evaluations made in this case
    std::map<std::string, uint64_t> *labels;
    void label(const std::string &l) { ++(*labels)[l]; }
    bool verbose = false;
};

inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// a recorded defect: probe() returns what still fails, or "" when the defect is gone
struct Known {
    std::string id;
    std::function<std::string()> probe;
};
struct Property {
    std::string name;              // e.g. "P01"
    std::string rule;              // non-triviality rule
    std::function<void(Ctx &)> run;
    unsigned caseTimeoutSec = 20;  // a case that runs longer counts as a hang
    std::function<void()> init;    // once per process
    std::function<void()> fini;
    std::vector<Known> known;
};

void registerProperty(const Property &p);
struct Reg { explicit Reg(const Property &p) { registerProperty(p); } };

// pauses threads of the library at random edges of its control flow: one edge in `every`, kind 0 gives
// up the processor, 1 spins, 2 sleeps; every = 0 switches it off
struct Perturb { unsigned every = 0, kind = 0; uint64_t seed = 0; };
void setPerturb(const Perturb &p);

int pbtMain(int argc, char **argv);

std::string hex(const std::string &s);
std::string unhex(const std::string &s);
}
