// uses: lang.cpp corpus.cpp
// C16: dividing execution into slices, in any way, with host reads in between, changes nothing.
#include "corpus.h"
#include "lang.h"
#include <memory>
using namespace mc;
using std::string;
using std::vector;

// Observation after every single instruction: the oracle for "a step of n executes at most n instructions".
struct Trace {
    vector<uint64_t> at;     // digest after k instructions
    vector<string> out;
    corpus::Run final;       // run in one go
    uint64_t n() const { return at.size() - 1; }
};
static uint64_t digest(Host &h, bool globals) {
    string k = h.out + "|" + h.errors() + (nkxVmProgramHasEnded(h.vm) ? "|E" : "|R");
    if(globals && !nkxVmHasErrors(h.vm)) k += h.globalsRepr(corpus::globalNames);
    return hashStr(k);
}
static Trace trace(const string &src, bool globals = true) {
    Trace t;
    { Host h; t.final.ok = corpus::start(h, src); if(!t.final.ok) { t.final.err = h.errors(); return t; }
      nkxSetRemainingInstructionLimit(h.vm, 200000);
      nkxVmExecuteProgram(h.vm); corpus::finish(h, t.final); }
    Host h;
    corpus::start(h, src);
    t.at.push_back(digest(h, globals)); t.out.push_back(h.out);
    for(uint64_t n = 0; n < corpus::MAXINST && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm); n++) {
        nkxVmIterate(h.vm, 1);
        t.at.push_back(digest(h, globals)); t.out.push_back(h.out);
    }
    return t;
}
struct Runner {
    Case &c; const Trace &t; const string &src; Host h; uint64_t k = 0; bool ok, globals; int reads;
    Runner(Case &c, const Trace &t, const string &src, bool globals = true, int reads = 0) : c(c), t(t), src(src), globals(globals), reads(reads) {
        ok = corpus::start(h, src);
        if(!ok) c.fail("does not load: %s", h.errors().c_str());
        if(reads & 4) { nkxSetGarbageCollectionInterval(h.vm, 3); nkxSetGarbageCollectionNewObjectInterval(h.vm, 2); }
    }
    void host() {
        if(reads & 1) { nkxVmGetCurrentMemoryUsage(h.vm); nkxGetErrorCount(h.vm); nkxGetErrorLength(h.vm); h.globalsRepr({"a", "co", "nosuch"}); nkxVmHasAllocationFailure(h.vm); nkxGetRemainingInstructionLimit(h.vm); }
        if(reads & 2) { Stream s; h.save(s); }
    }
    bool step(uint64_t n) {
        nkxVmIterate(h.vm, n);
        k = std::min(k + n, t.n());
        host();
        c.trans(n);
        uint64_t d = digest(h, globals);
        c.state(d);
        if(d != t.at[k]) { c.fail("after %llu of %llu instructions (a step of %llu) the state is not the one single stepping gives\n  sliced: %s %s%s\n  single: %s", (unsigned long long)k, (unsigned long long)t.n(), (unsigned long long)n, h.out.c_str(), h.errors().c_str(), nkxVmProgramHasEnded(h.vm) ? " ended" : "", t.out[k].c_str()); return false; }
        return true;
    }
    void end() { // run the rest in one go, then keep stepping
        bool r = nkxVmExecuteProgram(h.vm);
        corpus::Run f; corpus::finish(h, f);
        c.trace();
        if(f.key() != t.final.key()) { c.fail("final state differs\n  sliced: %s\n  in one go: %s", f.key().c_str(), t.final.key().c_str()); return; }
        if(!!r != f.err.empty()) c.fail("nkxVmExecuteProgram returned %d with errors '%s'", (int)r, f.err.c_str());
        after(f);
    }
    void after(const corpus::Run &f) {
        uint64_t calls = h.nativeCalls;
        nkuint32_t ec = nkxGetErrorCount(h.vm);
        if(f.err.empty()) { nkxSetGarbageCollectionInterval(h.vm, 2); nkxSetRemainingInstructionLimit(h.vm, 1); } // an ended program executes no instructions
        static const int S[] = {1, 0, 7, 1, 1000};
        for(int s : S) nkxVmIterate(h.vm, s);
        nkxVmExecuteProgram(h.vm); nkxVmIterate(h.vm, 1);
        corpus::Run g; corpus::finish(h, g);
        if(g.key() != f.key() || h.nativeCalls != (int)calls || nkxGetErrorCount(h.vm) != ec) c.fail("stepping after the end changed something\n  before: %s\n  after:  %s", f.key().c_str(), g.key().c_str());
    }
    void done() { h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str()); }
};

static const char *TINY[] = {
    "", "1;", "print(1);", "var a = 1;", "var a; a = 2; print(a);", "print(1); print(2);", "1 / 0;", "error(1);", "var a = 1 / 0; print(a);", "if(1) { 2; }", "{ var x = 1; }", "var a = object();",
    "print(coroutine(print));", "function f() { } f();", "while(0) { }", "yield(1);", "resume(1);", "var a = nil; a.b;", "print(1); nil + 1;",
};

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "each program is cut after every instruction, into equal slices of every size, at pairs of points, and (small programs) in every possible way; after every slice the observable state is compared with that of single stepping, at the end with running in one go and with the reference interpreter, and further stepping must change nothing";
    bool th = r.thorough();
    static vector<corpus::Prog> P = corpus::all();
    static vector<Trace> T;
    static vector<string> src;
    for(auto &p : P) { T.push_back(trace(p.src)); src.push_back(p.src); }
    for(size_t p = 0; p < P.size(); p++) {
        uint64_t n = T[p].at.size() - 1;
        r.add(strf("cut/%s", P[p].name), n + 2, [p](uint64_t i, Case &c) {
            c.desc("%llu instructions, then the rest in one go: %s", (unsigned long long)i, P[p].src);
            if(i == 0) {
                const Trace &t = T[p];
                if(!t.final.ok) { c.fail("does not load: %s", t.final.err.c_str()); return; }
                if(P[p].flags & corpus::PURE) {
                    lang::Result x = lang::run(P[p].src);
                    if(x.unspecified.empty() && !x.timeout) {
                        if(x.out != t.final.out) c.fail("running in one go gives\n  library: %s\n  rules:   %s", t.final.out.c_str(), x.out.c_str());
                        if(x.error == t.final.err.empty()) c.fail("errors '%s' but the rules say %s", t.final.err.c_str(), x.error ? "error" : "none");
                    }
                }
                bool fails = P[p].flags & corpus::FAILS;
                if(t.final.ended == fails) c.fail("ended state is %d for a program that %s", (int)t.final.ended, fails ? "fails" : "ends");
            }
            Runner x(c, T[p], src[p], true, i % 8);
            if(x.ok && x.step(i)) x.end();
            x.done();
            if(i % 100 == 0) c.sample(strf("%s cut after %llu", P[p].name, (unsigned long long)i));
        });
        // every slice size
        uint64_t K = th ? n : std::min<uint64_t>(n, 40);
        r.add(strf("slices/%s", P[p].name), K, [p](uint64_t i, Case &c) {
            c.desc("slices of %llu: %s", (unsigned long long)i + 1, P[p].src);
            Runner x(c, T[p], src[p], true, i % 8);
            if(!x.ok) return;
            uint64_t k = 0;
            bool ok = true;
            while(ok && k < T[p].n()) { ok = x.step(i + 1); k += i + 1; }
            if(ok) { corpus::Run f; corpus::finish(x.h, f); if(f.key() != T[p].final.key()) c.fail("final state differs\n  sliced: %s\n  in one go: %s", f.key().c_str(), T[p].final.key().c_str()); else x.after(f); c.trace(); }
            x.done();
        });
        uint64_t lim = th ? 800 : 120;
        if(n <= lim) r.add(strf("pair/%s", P[p].name), n * n, [p, n](uint64_t i, Case &c) {
            uint64_t a = i / n, b = i % n;
            if(a + b > n) return;
            c.desc("steps of %llu and %llu, then the rest: %s", (unsigned long long)a, (unsigned long long)b, P[p].src);
            Runner x(c, T[p], src[p], false, (int)(i & 1));
            // digests without globals: recompute cheaply from the recorded outputs
            nkxVmIterate(x.h.vm, a); x.host();
            if(x.h.out != T[p].out[a]) c.fail("after a step of %llu: %s, single stepping gives %s", (unsigned long long)a, x.h.out.c_str(), T[p].out[a].c_str());
            nkxVmIterate(x.h.vm, b); x.host();
            uint64_t e = std::min(a + b, T[p].n());
            if(x.h.out != T[p].out[e]) c.fail("after steps of %llu and %llu: %s, single stepping gives %s", (unsigned long long)a, (unsigned long long)b, x.h.out.c_str(), T[p].out[e].c_str());
            c.trans(2);
            x.end(); x.done();
        });
    }
    // Every composition of small programs.
    static vector<Trace> S; static vector<string> ssrc;
    unsigned maxBits = th ? 14 : 11;
    for(size_t p = 0; p < sizeof(TINY) / sizeof *TINY; p++) {
        ssrc.push_back(TINY[p]); S.push_back(trace(TINY[p]));
        uint64_t n = S[p].at.empty() ? 0 : S[p].n() + 1;
        if(n > maxBits) n = maxBits;
        r.add(strf("all/%zu", p), 1ull << n, [p, n](uint64_t i, Case &c) {
            c.desc("slicing %llx of: %s", (unsigned long long)i, TINY[p]);
            if(!S[p].final.ok) { c.fail("does not load: %s", S[p].final.err.c_str()); return; }
            Runner x(c, S[p], ssrc[p], true, i & 3);
            uint64_t run = 0; bool ok = true;
            for(uint64_t b = 0; b < n && ok; b++) { run++; if(i >> b & 1) { ok = x.step(run); run = 0; } else if((i + b) % 5 == 0) ok = x.step(0); }
            if(ok) x.end();
            x.done();
        });
    }
    uint64_t A = corpus::heapActions();
    unsigned D = th ? 3 : 2;
    r.add("heap", seqCount(A, D) * 2, [A](uint64_t i, Case &c) {
        string s = corpus::heapProgram(seqDecode(i / 2, A), i & 1);
        Trace t = trace(s, false);
        if(!t.final.ok) { c.fail("harness: does not load: %s", t.final.err.c_str()); return; }
        for(uint64_t z = 2; z < 40 && !c.failed(); z = z * 3 / 2 + 1) {
            c.desc("slices of %llu: %s", (unsigned long long)z, s.c_str());
            Runner x(c, t, s, false, z % 8);
            bool ok = true;
            for(uint64_t k = 0; ok && k < t.n() / 2; k += z) ok = x.step(z);
            if(ok) x.end();
            x.done();
        }
    });
    r.bounds = strf("%zu programs: every cut point, every slice size%s, every pair of steps for programs of up to %d instructions; %zu small programs in all ways of slicing; all sequences of up to %u heap actions; reads, saves and collections between slices", P.size(), th ? "" : " up to 40", th ? 800 : 120, sizeof(TINY) / sizeof *TINY, D);
    r.assumptions = {"the instruction limit is not reached"};
}
