// Differential step shared by the checks that decide script semantics: runs one program on the reference
// interpreter (lang) and on the real library, and reports any difference in what an embedding host can observe.
#pragma once
#include "host.h"
#include "lang.h"

namespace diff {
enum Skip { COMPARED, SKIPPED };
struct Opt {
    bool acceptance = true;   // compare accepted / rejected
    bool behaviour = true;    // compare output, error raised or not, globals
    bool line = false;        // compare file and line of a run-time error
    bool globals = true;
    int slice = 0;            // 0: run to completion, n: iterate in slices of n
    uint64_t maxSteps = 400000;
    bool expectAccept = true; // the harness only generates programs of the language: a reference rejection is a harness error
    std::function<void(Host &)> afterLoad; // before running
};
struct Obs { std::string out, err; bool accepted = false, ended = false, timeout = false; uint64_t steps = 0; };

inline void runReal(Host &h, const std::string &src, const Opt &o, Obs &b) {
    b.accepted = h.load(src);
    if(b.accepted) {
        if(o.afterLoad) o.afterLoad(h);
        int sl = o.slice ? o.slice : 4096;
        while(!nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm)) {
            nkxVmIterate(h.vm, sl);
            b.steps += sl;
            if(b.steps > o.maxSteps) { b.timeout = true; break; }
        }
        // nkxVmIterate leaves the final check of the end instruction to one more step
    }
    b.out = h.out;
    b.err = h.errors();
    b.ended = nkxVmProgramHasEnded(h.vm);
}

inline Skip compare(mc::Case &c, const std::string &src, const Opt &o = Opt(), lang::Result *rout = nullptr) {
    c.descs(src);
    lang::Options lo;
    lang::Result r = lang::run(src, lo);
    if(rout) *rout = r;
    Host h;
    Obs b;
    if(r.timeout) return SKIPPED; // beyond the explored horizon
    runReal(h, src, o, b);
    Skip res = COMPARED;
    if(r.compiled != b.accepted) {
        if(o.acceptance && !r.lenient && r.unspecified.empty())
            c.fail("%s by the library but %s by the language rules%s\nlibrary errors: %s", b.accepted ? "accepted" : "rejected",
                   r.compiled ? "well-formed" : "ill-formed", r.why.empty() ? "" : (" (" + r.why + ")").c_str(), b.err.c_str());
        res = SKIPPED;
    } else if(!r.compiled) {
        if(o.expectAccept) c.fail("harness error: generated program is ill-formed (%s)", r.why.c_str());
        if(b.err.empty()) c.fail("rejected without an error message");
        if(!b.out.empty()) c.fail("a rejected program produced output");
    } else if(!r.unspecified.empty()) {
        res = SKIPPED;
    } else if(o.behaviour) {
        if(b.timeout) c.fail("did not end within %llu instructions; the rules end it after %llu evaluation steps\nexpected output: %s", (unsigned long long)b.steps, (unsigned long long)r.steps, r.out.c_str());
        else {
            if(b.out != r.out) c.fail("output differs\n  library: %s\n  rules:   %s\n  library errors: %s\n  rules error: %s", b.out.c_str(), r.out.c_str(), b.err.c_str(), r.error ? r.why.c_str() : "none");
            else if(r.error != !b.err.empty()) c.fail("%s\n  library errors: %s\n  rules: %s", r.error ? "the rules raise an error here, the library did not" : "the library raised an error, the rules do not", b.err.c_str(), r.why.c_str());
            else if(!r.error && !b.ended) c.fail("stopped without having ended");
            else if(!r.error && (nkxVmIterate(h.vm, 2), nkxVmHasErrors(h.vm))) c.fail("stepping a finished program raised an error: %s", h.errors().c_str());
            else if(o.globals && nkxVmHasErrors(h.vm) == r.error) {
                for(auto &g : r.globals) {
                    if(lo.nativeNames.count(g.first)) continue;
                    NKValue *v = nkxVmFindGlobalVariable(h.vm, nullptr, g.first.c_str());
                    if(!v) { c.fail("global %s not found", g.first.c_str()); break; }
                    NKValue k = *v;
                    std::string got = h.repr(&k);
                    if(got != g.second) { c.fail("global %s differs\n  library: %s\n  rules:   %s", g.first.c_str(), got.c_str(), g.second.c_str()); break; }
                }
            }
            if(o.line && r.error && !b.err.empty()) {
                std::string fl = firstLine(b.err), want = r.file + ":";
                int ln = -1;
                if(fl.compare(0, want.size(), want) == 0) ln = atoi(fl.c_str() + want.size());
                if(ln < r.line1 || ln > r.line2) c.fail("error reported at the wrong place\n  library: %s\n  rules: %s line %d..%d (%s)", fl.c_str(), r.file.c_str(), r.line1, r.line2, r.why.c_str());
            }
        }
    }
    h.destroy();
    for(auto &p : h.problems) c.fail("%s", p.c_str());
    if(res == COMPARED) {
        c.trace();
        c.trans(r.steps + 1);
        c.state(mc::hashStr(b.out + "|" + b.err));
        c.nontrivial(mc::hashStr(src));
        c.outcome(r.compiled ? (r.error ? "script error" : "ran to the end") : "rejected");
    }
    return res;
}
} // namespace diff
