// Exploration engine: enumerates the indexable case spaces a harness defines, in crash-isolated worker
// processes, and reports failures, measured coverage and samples.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>

namespace mc {

enum Tier { QUICK, THOROUGH };

struct Case {
    // Describes the execution about to be explored (kept in shared memory so that a crash can be named).
    void desc(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void descs(const std::string &s);
    // Records a violation found in this case (does not stop the case).
    void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    bool failed() const;
    // Measured coverage.
    void state(uint64_t hash);          // distinct abstract / observed states
    void trans(uint64_t n = 1);         // steps (operations, instructions, slices) executed
    void trace(uint64_t n = 1);         // complete executions of the real code compared with the oracle
    void nontrivial(uint64_t hash);     // distinct non-trivial cases (fault spaces)
    void outcome(const std::string &s); // distinct observed outcomes
    void sample(const std::string &s);  // a case written out
    void note(int i, uint64_t n = 1);   // free counters (see Registry::noteName)
};

struct Space {
    std::string name;
    uint64_t count;
    std::function<void(uint64_t, Case &)> run;
    double cpuSeconds = 20;             // horizon per case
};

struct Registry {
    Tier tier;
    std::vector<Space> spaces;
    std::vector<std::string> notes;
    std::string level = "model_checking", rule, bounds;
    std::vector<std::string> assumptions;
    Space &add(const std::string &name, uint64_t count, std::function<void(uint64_t, Case &)> run);
    int noteName(const std::string &n) { notes.push_back(n); return (int)notes.size() - 1; }
    bool thorough() const { return tier == THOROUGH; }
};

uint64_t hashBytes(const void *p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hashStr(const std::string &s) { return hashBytes(s.data(), s.size()); }
// Changes into an empty directory of this process, below the run directory (removed when the check ends).
void scratch();
std::string esc(const std::string &s); // printable form
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// Mixed-radix decoding of a case index.
struct Idx {
    uint64_t v;
    explicit Idx(uint64_t i) : v(i) {}
    uint64_t pick(uint64_t n) { uint64_t r = v % n; v /= n; return r; }
    bool done() const { return v == 0; }
};
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while(e--) r *= b; return r; }
// Number of sequences of length 1..d over k symbols, and decoding (shortest first).
inline uint64_t seqCount(uint64_t k, unsigned d) { uint64_t r = 0; for(unsigned i = 1; i <= d; i++) r += ipow(k, i); return r; }
std::vector<int> seqDecode(uint64_t idx, uint64_t k);

} // namespace mc

// Each harness defines this.
void define(mc::Registry &r);
