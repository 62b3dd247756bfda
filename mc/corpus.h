// Programs used by the checks that perturb an execution (collection, saving, shrinking, slicing, faults, limits).
#pragma once
#include "host.h"

namespace corpus {
struct Prog {
    const char *name;
    const char *src;
    unsigned flags;
};
enum {
    NATREF = 1,   // native data refers to script values without a handle
    HANDLES = 2,  // uses host handles
    FAILS = 4,    // ends in a script error
    NESTED = 8,   // calls back into script from native code
    PURE = 16,    // only print/gc/error/call/str natives (the reference interpreter can run it)
    CORO = 32,
};
const std::vector<Prog> &all();
std::vector<Prog> without(unsigned flags);

// Systematic heap programs: sequences of heap-changing actions over three globals, one local frame, a coroutine and
// the host. k actions from an alphabet of heapActions() each.
uint64_t heapActions();
std::string heapProgram(const std::vector<int> &acts, bool inFunction);

// Programs in which n values, reachable from one kind of place only, are built between garbage, kept over a call of
// hook(1), and read back after the freed slots have been used again. Kinds of places and shapes of values by number.
enum { HOLDERS = 14, SHAPES = 5 };
extern const char *const holderNames[HOLDERS], *const shapeNames[SHAPES];
std::string holder(int kind, int shape, int n);
// Number of instructions after which hook(1) has just been called.
uint64_t marker(const std::string &src);

struct Run {
    bool ok = false;        // loaded
    std::string out, err, globals;
    uint64_t n = 0;         // instructions until end or error
    bool ended = false;
    std::string key() const { return out + "|" + err + "|" + globals + (ended ? "|E" : ""); }
};
extern const std::vector<std::string> globalNames;
// Runs unperturbed with automatic collection off, one instruction at a time.
Run baseline(const std::string &src);
void finish(Host &h, Run &r);
// Loads; returns false if it does not load.
bool start(Host &h, const std::string &src);
static const uint64_t MAXINST = 20000;
} // namespace corpus
